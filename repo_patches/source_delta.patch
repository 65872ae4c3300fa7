From 4e5a57f6a2bc95ad05333ec6fd4d603ed2e27e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 01/25] fix: integer division by zero (or overflow) is a
 run-time error instead of a hardware trap

---
 duckVM.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index ef9fde8..f44b0c2 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -742,6 +742,20 @@ static dl_error_t duckVM_instruction_prepareForFuncall(duckVM_t *duckVM,
 }                
 
 
+/* Integer division traps on a zero divisor and when the quotient doesn't fit (DL_PTRDIFF_MIN / -1). */
+static dl_bool_t integerDivisionIsUndefined(const duckVM_object_t *dividend, const duckVM_object_t *divisor) {
+	const dl_ptrdiff_t most_negative = (dl_ptrdiff_t) ((dl_size_t) 1 << (8*sizeof(dl_size_t) - 1));
+	const dl_bool_t integerDividend = dividend->type == duckVM_object_type_integer;
+	const dl_bool_t boolDividend = dividend->type == duckVM_object_type_bool;
+	const dl_bool_t integerDivisor = divisor->type == duckVM_object_type_integer;
+	const dl_bool_t boolDivisor = divisor->type == duckVM_object_type_bool;
+	return ((integerDividend || boolDividend)
+	        && ((boolDivisor && !divisor->value.boolean)
+	            || (integerDivisor && (divisor->value.integer == 0))
+	            || (integerDivisor && (divisor->value.integer == -1)
+	                && integerDividend && (dividend->value.integer == most_negative))));
+}
+
 int duckVM_executeInstruction(duckVM_t *duckVM,
                               duckVM_object_t *bytecode,
                               unsigned char **ipPtr,
@@ -2031,6 +2045,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (e) break;
 		e = dl_array_get(&duckVM->stack, &object2, duckVM->stack.elements_length - ptrdiff2);
 		if (e) break;
+		if (integerDivisionIsUndefined(&object1, &object2)) {
+			e = dl_error_invalidValue;
+			break;
+		}
 		switch (object1.type) {
 		case duckVM_object_type_float:
 			switch (object2.type) {
@@ -2103,6 +2121,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (e) break;
 		e = dl_array_get(&duckVM->stack, &object2, duckVM->stack.elements_length - ptrdiff2);
 		if (e) break;
+		if (integerDivisionIsUndefined(&object1, &object2)) {
+			e = dl_error_invalidValue;
+			break;
+		}
 		switch (object1.type) {
 		case duckVM_object_type_float:
 			switch (object2.type) {
@@ -2172,6 +2194,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (e) break;
 		e = dl_array_get(&duckVM->stack, &object2, duckVM->stack.elements_length - ptrdiff2);
 		if (e) break;
+		if (integerDivisionIsUndefined(&object1, &object2)) {
+			e = dl_error_invalidValue;
+			break;
+		}
 		switch (object1.type) {
 		case duckVM_object_type_float:
 			switch (object2.type) {
-- 
2.43.0


From 598ddf99289228f7548521df9422c2acce872c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:19 +0000
Subject: [PATCH 02/25] fix: equal with 16-bit operands decoded its operands
 twice

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index f44b0c2..a7a235e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -2802,6 +2802,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 			ptrdiff2 = *(ip++);
 			ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
+			parsedBytecode = dl_true;
 		}
 		// Fall through
 	case duckLisp_instruction_equal8:
-- 
2.43.0


From 1b74e7af79eede5ee13db01ee44322e3cc691ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 03/25] fix: push-string reports a failed allocation instead of
 pushing an uninitialised object

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index a7a235e..d150e26 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -868,6 +868,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				 = duckVM_error_pushRuntime(duckVM,
 				                            DL_STR("duckVM_execute->push-string: duckVM_object_makeString failed.")));
 				if (!e) e = eError;
+				break;
 			}
 			e = stack_push(duckVM, &object1);
 			if (e) {
-- 
2.43.0


From a66d4446da2030e7b0b4df9fef3b01a168792309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 04/25] fix: track the executing bytecode across calls so that
 closures and the collector refer to the right one

---
 duckVM.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index d150e26..6ad5b63 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4659,6 +4659,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	}
  cleanup:
 	*ipPtr = ip;
+	/* A call or return may have switched to other bytecode. */
+	duckVM->currentBytecode = bytecode;
 	return e;
 }
 
@@ -4669,8 +4671,8 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 	dl_error_t e = dl_error_ok;
 
 	duckVM_halt_mode_t halt = duckVM_halt_mode_run;
-	/* Why a reference to bytecode? So it can be switched out with other bytecodes by `duckVM_executeInstruction`. */
 	duckVM_object_t *bytecodeObject;
+	duckVM_object_t *callerBytecode = duckVM->currentBytecode;
 	dl_uint8_t *ip = dl_null;
 	if ((ipOffset < 0) || (bytecode_length <= (dl_size_t) ipOffset)) {
 		dl_error_t eError = dl_error_ok;
@@ -4691,9 +4693,10 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 	duckVM->currentBytecode = bytecodeObject;
 	if (bytecode_length == 0) goto cleanup;
 	do {
-		e = duckVM_executeInstruction(duckVM, bytecodeObject, &ip, &halt);
+		/* `duckVM_executeInstruction` switches out `currentBytecode` on calls and returns. */
+		e = duckVM_executeInstruction(duckVM, duckVM->currentBytecode, &ip, &halt);
 	} while (!e && (halt == duckVM_halt_mode_run));
-	duckVM->currentBytecode = dl_null;
+	duckVM->currentBytecode = callerBytecode;
 
  cleanup: return e;
 }
@@ -5614,16 +5617,15 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 		{
 			/* Call bytecode. */
 			dl_uint8_t shim_bytecode[] = {duckLisp_instruction_halt};
-			duckVM_object_t shim_bytecode_object[] = {duckVM_object_makeBytecode(shim_bytecode,
-			                                                                     sizeof(shim_bytecode) / sizeof(*shim_bytecode))};
 			dl_uint8_t *shim_ip = shim_bytecode;
 
 			duckVM_object_t *bytecode_object = functionObject.value.closure.bytecode;
 			duckVM_bytecode_t bytecode = bytecode_object->value.bytecode;
 			dl_ptrdiff_t bytecode_offset = functionObject.value.closure.name;
+			/* The shim isn't on the heap, so register the caller's bytecode with the collector instead. */
 			e = call_stack_push(duckVM,
 			                    shim_ip,
-			                    shim_bytecode_object,
+			                    duckVM->currentBytecode,
 			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
-- 
2.43.0


From 28805f3f8a4736b1a1aba42cb39527c70a619706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 05/25] fix: the vector instruction keeps its elements alive
 while it allocates the next one

---
 duckVM.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 6ad5b63..a7e5c62 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3198,6 +3198,11 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		/* Immediately push on stack so that the GC can see it. Allocating elements could trigger a GC. */
 		e = dl_array_pushElement(&duckVM->stack, &object1);
 		if (e) break;
+		/* The elements stored so far must survive a GC triggered by the allocation of the next one. */
+		DL_DOTIMES(k, object1.value.vector.internal_vector->value.internal_vector.length) {
+			object1.value.vector.internal_vector->value.internal_vector.values[k] = dl_null;
+		}
+		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		DL_DOTIMES(k, object1.value.vector.internal_vector->value.internal_vector.length) {
 			ptrdiff1 = *(ip++);
 			switch (opcode) {
@@ -3235,7 +3240,6 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		/* Break push_scope abstraction. */
 		e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
 		if (e) break;
-		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t) = object1;
 		break;
 
-- 
2.43.0


From 88510aa323923072e2cfe0e092c12628d63e253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 06/25] fix: a failed buffer allocation no longer leaves a
 foreign pointer in a heap cell, and huge vectors no longer overflow the
 buffer size

---
 duckVM.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index a7e5c62..25b25f9 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -340,6 +340,8 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	duckVM_object_t *heapObject = gclist->freeObjects[--gclist->freeObjects_length];
 	*heapObject = objectIn;
 	if (objectIn.type == duckVM_object_type_upvalueArray) {
+		/* Not ours, and must not be freed if the allocation fails. */
+		heapObject->value.upvalue_array.upvalues = dl_null;
 		if (objectIn.value.upvalue_array.length > 0) {
 			e = DL_MALLOC(duckVM->memoryAllocation,
 			              (void **) &heapObject->value.upvalue_array.upvalues,
@@ -359,11 +361,17 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 		if (e) goto cleanup;
 	}
 	else if (objectIn.type == duckVM_object_type_internalVector) {
+		heapObject->value.internal_vector.values = dl_null;
 		if (objectIn.value.internal_vector.length > 0) {
-			e = DL_MALLOC(duckVM->memoryAllocation,
-			              (void **) &heapObject->value.internal_vector.values,
-			              objectIn.value.internal_vector.length,
-			              duckVM_object_t **);
+			if (objectIn.value.internal_vector.length > ((dl_size_t) -1) / sizeof(duckVM_object_t *)) {
+				e = dl_error_outOfMemory;
+			}
+			else {
+				e = DL_MALLOC(duckVM->memoryAllocation,
+				              (void **) &heapObject->value.internal_vector.values,
+				              objectIn.value.internal_vector.length,
+				              duckVM_object_t **);
+			}
 			if (e) {
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_gclist_pushObject: Vector allocation failed."));
@@ -382,6 +390,7 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 		if (e) goto cleanup;
 	}
 	else if (objectIn.type == duckVM_object_type_bytecode) {
+		heapObject->value.bytecode.bytecode = dl_null;
 		if (objectIn.value.bytecode.bytecode_length > 0) {
 			e = DL_MALLOC(duckVM->memoryAllocation,
 			              &heapObject->value.bytecode.bytecode,
@@ -404,6 +413,7 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 		if (e) goto cleanup;
 	}
 	else if (objectIn.type == duckVM_object_type_internalString) {
+		heapObject->value.internalString.value = dl_null;
 		if (objectIn.value.internalString.value_length > 0) {
 			e = DL_MALLOC(duckVM->memoryAllocation,
 			              &heapObject->value.internalString.value,
-- 
2.43.0


From 8e0c48fc364c0ed16925395033bf6d6e8ca58d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 07/25] fix: report a failure while marking instead of sweeping
 reachable objects

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 25b25f9..e3660a2 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -107,6 +107,7 @@ static dl_error_t duckVM_gclist_quit(duckVM_gclist_t *gclist) {
 
 static dl_error_t duckVM_gclist_markObject(duckVM_gclist_t *gclist, duckVM_object_t *object, dl_bool_t stack) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	/* Array of pointers that need to be traced. */
 	dl_array_t dispatchStack;
@@ -206,7 +207,8 @@ static dl_error_t duckVM_gclist_markObject(duckVM_gclist_t *gclist, duckVM_objec
 	}
 
  cleanup:
-	e = dl_array_quit(&dispatchStack);
+	eError = dl_array_quit(&dispatchStack);
+	if (!e) e = eError;
 	return e;
 }
 
-- 
2.43.0


From 4fe57a630be4d231041c4f06a4e3f2d206f82247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 08/25] fix: vector element access rejects empty vectors and
 negative indices instead of touching foreign memory

---
 duckVM.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index e3660a2..62588ec 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3405,7 +3405,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (object1.type == duckVM_object_type_vector) {
 			ptrdiff1 = object2.value.integer;
 			if ((ptrdiff1 < 0)
-			    || ((dl_size_t) (ptrdiff1 + object1.value.vector.offset)
+			    || (object1.value.vector.internal_vector == dl_null)
+			    || ((dl_size_t) ptrdiff1 + (dl_size_t) object1.value.vector.offset
 			        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
@@ -3516,8 +3517,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 
 		/* Vector bounds check. */
 		ptrdiff2 = object2.value.integer;
-		if ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
-		    >= object1.value.vector.internal_vector->value.internal_vector.length) {
+		if ((ptrdiff2 < 0)
+		    || (object1.value.vector.internal_vector == dl_null)
+		    || ((dl_size_t) ptrdiff2 + (dl_size_t) object1.value.vector.offset
+		        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 			e = dl_error_invalidValue;
 			break;
 		}
-- 
2.43.0


From 7452a35578aff070be20a8a8b8f199a48b90b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 09/25] fix: set-car and set-cdr on a vector stay inside the
 vector, and set-cdr keeps the current element as documented

---
 duckVM.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 62588ec..14f6e45 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3783,7 +3783,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		else if ((object2.type == duckVM_object_type_vector)
-		         && (object2.value.vector.internal_vector != dl_null)) {
+		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)) {
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
 			if (e) break;
 			(object2.value.vector.internal_vector
@@ -3840,11 +3842,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		}
 		else if ((object2.type == duckVM_object_type_vector)
 		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)
 		         && (((object1.type == duckVM_object_type_vector)
 		              && (object1.value.vector.internal_vector == dl_null))
 		             || ((object1.type == duckVM_object_type_list)
 		                 && (object1.value.list == dl_null)))) {
-			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset;
+			/* Keep the current element. */
+			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset + 1;
 		}
 		else {
 			e = dl_error_invalidValue;
-- 
2.43.0


From 7143f2a8b4abaf35354ca2f916e19a184bc7dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 10/25] fix: the length of a vector view past a truncation is
 zero instead of negative

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 14f6e45..8588bc0 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4193,7 +4193,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				}
 			}
 			else if (object1.type == duckVM_object_type_vector) {
-				object2.value.integer = (object1.value.vector.internal_vector
+				/* The vector may have been truncated to before this view's start. */
+				object2.value.integer = ((object1.value.vector.internal_vector
+				                          && ((dl_size_t) object1.value.vector.offset
+				                              < object1.value.vector.internal_vector->value.internal_vector.length))
 				                         ? (object1.value.vector.internal_vector->value.internal_vector.length
 				                            - object1.value.vector.offset)
 				                         : 0);
-- 
2.43.0


From e3b9e879ab5aa42b54d6dee55ee2d09cffbe7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 11/25] fix: make-string stops at the first bad element and
 accepts empty sequences instead of using freed or foreign memory

---
 duckVM.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 8588bc0..a3cebad 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4284,10 +4284,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff1);
 			if (e) break;
 			if (object1.type == duckVM_object_type_vector) {
-				dl_size_t vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
-				string_length = vector_length - object1.value.vector.offset;
-				e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
-				if (e) break;
+				dl_size_t vector_length = (object1.value.vector.internal_vector
+				                           ? object1.value.vector.internal_vector->value.internal_vector.length
+				                           : 0);
+				if ((dl_size_t) object1.value.vector.offset < vector_length) {
+					string_length = vector_length - object1.value.vector.offset;
+					e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
+					if (e) break;
+				}
 				for (dl_ptrdiff_t i = object1.value.vector.offset; (dl_size_t) i < vector_length; i++) {
 					duckVM_object_t *element = object1.value.vector.internal_vector->value.internal_vector.values[i];
 					if (element->type != duckVM_object_type_integer) {
@@ -4302,9 +4306,17 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					/* Truncate to 8 bits. */
 					string[i - object1.value.vector.offset] = element->value.integer;
 				}
+				if (e) break;
 			}
 			else if (object1.type == duckVM_object_type_list) {
 				dl_array_t string_array;
+				if (duckVM_listIsCyclic(object1.value.list)) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM,
+					                                  DL_STR("duckVM_execute->make-string: List must not be circular."));
+					if (eError) e = eError;
+					break;
+				}
 				/**/ dl_array_init(&string_array, duckVM->memoryAllocation, sizeof(char), dl_array_strategy_double);
 				objectPtr1 = object1.value.list;
 				while (objectPtr1 != dl_null) {
@@ -4313,7 +4325,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					}
 					else if (objectPtr1->type == duckVM_object_type_cons) {
 						duckVM_object_t *car = objectPtr1->value.cons.car;
-						if (car->type != duckVM_object_type_integer) {
+						if ((car == dl_null) || (car->type != duckVM_object_type_integer)) {
 							e = dl_error_invalidValue;
 							eError = duckVM_error_pushRuntime(duckVM,
 							                                  DL_STR("duckVM_execute->make-string: All list elements must be integers."));
@@ -4342,6 +4354,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 						break;
 					}
 				}
+				if (e) break;
 				string = string_array.elements;
 				string_length = string_array.elements_length;
 			}
-- 
2.43.0


From 5b8f0c3545fc474ae44d3defc3c5c642c1f98f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 12/25] fix: concatenate uses the visible part of string views
 and accepts empty strings

---
 duckVM.c | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index a3cebad..6aa3655 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4458,21 +4458,27 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			dl_size_t object1_string_length = 0;
 			dl_uint8_t *object2_string = dl_null;
 			dl_size_t object2_string_length = 0;
+			/* Empty strings and stripped symbols have no internal string. */
 			if (object1.type == duckVM_object_type_string) {
-				object1_string = (object1.value.string.internalString->value.internalString.value
-				                  + object1.value.string.offset);
-				object1_string_length = object1.value.string.length;
+				if (object1.value.string.internalString) {
+					object1_string = (object1.value.string.internalString->value.internalString.value
+					                  + object1.value.string.offset);
+					object1_string_length = object1.value.string.length - object1.value.string.offset;
+				}
 			}
-			else {
+			else if (object1.value.symbol.internalString) {
 				object1_string = object1.value.symbol.internalString->value.internalString.value;
 				object1_string_length = object1.value.symbol.internalString->value.internalString.value_length;
 			}
+			/* Empty strings and stripped symbols have no internal string. */
 			if (object2.type == duckVM_object_type_string) {
-				object2_string = (object2.value.string.internalString->value.internalString.value
-				                  + object2.value.string.offset);
-				object2_string_length = object2.value.string.length;
+				if (object2.value.string.internalString) {
+					object2_string = (object2.value.string.internalString->value.internalString.value
+					                  + object2.value.string.offset);
+					object2_string_length = object2.value.string.length - object2.value.string.offset;
+				}
 			}
-			else {
+			else if (object2.value.symbol.internalString) {
 				object2_string = object2.value.symbol.internalString->value.internalString.value;
 				object2_string_length = object2.value.symbol.internalString->value.internalString.value_length;
 			}
@@ -4481,15 +4487,17 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			object3.value.internalString.value_length = object1_string_length;
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object3);
 			if (e) break;
-			objectPtr1->value.internalString.value_length = object1_string_length + object2_string_length;
-			e = DL_REALLOC(duckVM->memoryAllocation,
-			               &objectPtr1->value.internalString.value,
-			               objectPtr1->value.internalString.value_length,
-			               dl_uint8_t);
-			if (e) break;
-			/**/ dl_memcopy_noOverlap((objectPtr1->value.internalString.value + object1_string_length),
-			                          object2_string,
-			                          object2_string_length);
+			if (object2_string_length > 0) {
+				e = DL_REALLOC(duckVM->memoryAllocation,
+				               &objectPtr1->value.internalString.value,
+				               object1_string_length + object2_string_length,
+				               dl_uint8_t);
+				if (e) break;
+				objectPtr1->value.internalString.value_length = object1_string_length + object2_string_length;
+				/**/ dl_memcopy_noOverlap((objectPtr1->value.internalString.value + object1_string_length),
+				                          object2_string,
+				                          object2_string_length);
+			}
 			object3.type = duckVM_object_type_string;
 			object3.value.string.offset = 0;
 			object3.value.string.length = objectPtr1->value.internalString.value_length;
-- 
2.43.0


From 2f0f296189850d467fe69006c0341093c233dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 13/25] fix: symbol-string of a symbol without a name is the
 empty string instead of a null dereference

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 6aa3655..927aa31 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4239,7 +4239,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		object2.type = duckVM_object_type_string;
 		object2.value.string.internalString = object1.value.symbol.internalString;
 		object2.value.string.offset = 0;
-		object2.value.string.length = object1.value.symbol.internalString->value.internalString.value_length;
+		/* Stripped symbols have no name. */
+		object2.value.string.length = (object1.value.symbol.internalString
+		                               ? object1.value.symbol.internalString->value.internalString.value_length
+		                               : 0);
 		e = stack_push(duckVM, &object2);
 		if (e) break;
 		break;
-- 
2.43.0


From 4854a24d5b371d0a214775689d71131b60711579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 14/25] fix: the vector instruction rejects a zero stack
 distance instead of storing the unfinished vector in itself

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 927aa31..9cca86a 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3235,7 +3235,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			/* stack - 1 because we already pushed. */
 			dl_size_t old_stack_length = duckVM->stack.elements_length - 1;
 			ptrdiff1 = old_stack_length - ptrdiff1;
-			if ((ptrdiff1 < 0) || ((dl_size_t) ptrdiff1 > old_stack_length)) {
+			if ((ptrdiff1 < 0) || ((dl_size_t) ptrdiff1 >= old_stack_length)) {
 				e = dl_error_invalidValue;
 				break;
 			}
-- 
2.43.0


From 70d1b79450c70b3a91550eba33e85a26672dd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 15/25] fix: car and cdr of an exhausted string yield a
 well-formed empty string

---
 duckVM.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 9cca86a..d878ac1 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3608,6 +3608,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.string.internalString == dl_null) {
 				object2.type = duckVM_object_type_string;
 				object2.value.string.internalString = dl_null;
+				object2.value.string.offset = 0;
+				object2.value.string.length = 0;
 			}
 			else {
 				if (object1.value.string.internalString->type == duckVM_object_type_internalString) {
@@ -3616,6 +3618,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					    /* -1 because we are going to try to get the cdr, which is the next element after. */
 					    || ((dl_size_t) object1.value.string.offset >= object1.value.string.length - 1)) {
 						object2.value.string.internalString = dl_null;
+						object2.value.string.offset = 0;
+						object2.value.string.length = 0;
 					}
 					/* cdr can't be anything other than a string. */
 					else {
@@ -3713,6 +3717,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.string.internalString == dl_null) {
 				object2.type = duckVM_object_type_string;
 				object2.value.string.internalString = dl_null;
+				object2.value.string.offset = 0;
+				object2.value.string.length = 0;
 			}
 			else {
 				if (object1.value.string.internalString->type == duckVM_object_type_internalString) {
@@ -3720,6 +3726,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					    || ((dl_size_t) object1.value.string.offset >= object1.value.string.length)) {
 						object2.type = duckVM_object_type_string;
 						object2.value.string.internalString = dl_null;
+						object2.value.string.offset = 0;
+						object2.value.string.length = 0;
 					}
 					else {
 						object2.type = duckVM_object_type_integer;
-- 
2.43.0


From 95fcedebe81d8bba63d84794bdaee1ae33cddb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:55 +0000
Subject: [PATCH 16/25] fix: apply rejects surplus list arguments of a callee
 that takes a fixed number of them

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index d878ac1..46376e0 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1554,7 +1554,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (e) break;
 		}
 		else {
-			if (object1.value.closure.arity != uint8) {
+			if ((object1.value.closure.arity != uint8) || (rest.value.list != dl_null)) {
 				e = dl_error_invalidValue;
 				break;
 			}
-- 
2.43.0


From 0510b37ec8988fd0238d4bd250f7418c85ffbe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:07 +0000
Subject: [PATCH 17/25] fix: call reports a failed call frame allocation
 instead of jumping without a frame

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 46376e0..35b000e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1577,7 +1577,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_call8:
 		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 		ptrdiff2 = *(ip++);
-		call_stack_push(duckVM, ip, bytecode, dl_null);
+		e = call_stack_push(duckVM, ip, bytecode, dl_null);
 		if (e) break;
 		if (opcode == duckLisp_instruction_call32) {
 			if (ptrdiff1 & 0x80000000ULL) {
-- 
2.43.0


From 4643dceaa4273b215453e511f30ba314a6360c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:18 +0000
Subject: [PATCH 18/25] fix: c-call rejects a global that is not a callback
 instead of jumping to its bytes

---
 duckVM.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 35b000e..303cb02 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1625,6 +1625,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				if (!e) e = eError;
 				break;
 			}
+			if ((global == dl_null) || (global->type != duckVM_object_type_function)) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_execute->c-call: Global is not a callback."));
+				if (!e) e = eError;
+				break;
+			}
 			e = global->value.function.callback(duckVM);
 			if (e) {
 				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->c-call: C callback returned error."));
-- 
2.43.0


From 5146fab7001615b020011459d715c200ae0257cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:38 +0000
Subject: [PATCH 19/25] fix: a failed reallocation keeps the old block instead
 of losing the caller's buffer

---
 DuckLib/memory.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 110538b..96973e7 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -944,10 +944,13 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 
 dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_size_t size) {
 	(void) memoryAllocation;
-	*(dl_uint8_t **) memory = realloc(*(dl_uint8_t **) memory, size);
-	if (*(dl_uint8_t **) memory == NULL) {
+	dl_uint8_t *newMemory = realloc(*(dl_uint8_t **) memory, size);
+	if ((newMemory == NULL) && (size != 0)) {
+		// The old block is still allocated. Don't lose it.
 		return dl_error_outOfMemory;
 	}
+	*(dl_uint8_t **) memory = newMemory;
+	if (newMemory == NULL) return dl_error_outOfMemory;
 	return dl_error_ok;
 }
 
-- 
2.43.0


From e823d10d8dc82d655e47a729783afed801716349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:38 +0000
Subject: [PATCH 20/25] fix: dl_array_copy leaves the destination with its own
 buffer instead of the source's

---
 DuckLib/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DuckLib/array.c b/DuckLib/array.c
index 68e1c37..c2a74ae 100644
--- a/DuckLib/array.c
+++ b/DuckLib/array.c
@@ -227,6 +227,8 @@ dl_error_t dl_array_copy(dl_array_t *arrayDestination, dl_array_t arraySource) {
 	
 	e = dl_free(arrayDestination->memoryAllocation, &arrayDestination->elements);
 	if (e) goto cleanup;
+	arrayDestination->elements_length = 0;
+	arrayDestination->elements_memorySize = 0;
 	e = dl_malloc(arrayDestination->memoryAllocation, &arrayDestination->elements, arraySource.elements_memorySize);
 	if (e) goto cleanup;
 	
@@ -240,8 +242,6 @@ dl_error_t dl_array_copy(dl_array_t *arrayDestination, dl_array_t arraySource) {
 	                  arraySource.elements,
 	                  arraySource.elements_length * arraySource.element_size);
 	
-	*arrayDestination = arraySource;
-	
  cleanup: return e;
 }
 
-- 
2.43.0


From 7ee4c2726191bab7c369a1e84aaac6031b6f5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:01 +0000
Subject: [PATCH 21/25] fix: appending an empty array does not reallocate the
 destination to size zero

---
 DuckLib/array.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DuckLib/array.c b/DuckLib/array.c
index c2a74ae..fa975ae 100644
--- a/DuckLib/array.c
+++ b/DuckLib/array.c
@@ -249,6 +249,8 @@ dl_error_t dl_array_copy(dl_array_t *arrayDestination, dl_array_t arraySource) {
 dl_error_t dl_array_append(dl_array_t *arrayDestination, dl_array_t *arraySource) {
 	dl_error_t e = dl_error_ok;
 
+	if (arraySource->elements_length == 0) goto cleanup;
+
 	// Add space for new elements.
 	switch (arrayDestination->strategy) {
 	case dl_array_strategy_fit:
-- 
2.43.0


From e4887f31e06035fa7f0d40ddbb32eeb351817571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:22 +0000
Subject: [PATCH 22/25] fix: a failed definition of a global no longer shifts
 the globals defined after it

---
 duckVM.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 303cb02..2c6478e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -621,7 +621,11 @@ dl_error_t duckVM_global_set(duckVM_t *duckVM, duckVM_object_t *value, dl_ptrdif
 	e = dl_array_pushElement(globals, &value);
 	if (e) goto cleanup;
 	e = dl_array_pushElement(globals_map, &key);
-	if (e) goto cleanup;
+	if (e) {
+		/* Keep the two arrays in step. */
+		(void) dl_array_popElement(globals, dl_null);
+		goto cleanup;
+	}
 
  cleanup:
 	return e;
-- 
2.43.0


From f1667efab5a040d355f391cc3e5a798337996470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:27 +0000
Subject: [PATCH 23/25] fix: set-global rejects a stack distance outside the
 stack instead of reading foreign memory

---
 duckVM.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 2c6478e..8e9d32d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1391,11 +1391,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			ptrdiff1 = *(ip++);
 			ptrdiff2 = *(ip++);
 		}
-		e = duckVM_gclist_pushObject(duckVM,
-		                             &objectPtr1,
-		                             DL_ARRAY_GETADDRESS(duckVM->stack,
-		                                                 duckVM_object_t,
-		                                                 duckVM->stack.elements_length - ptrdiff1));
+		e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff1);
+		if (e) {
+			eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->set-global: dl_array_get failed."));
+			if (eError) e = eError;
+			break;
+		}
+		e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
 		if (e) break;
 		e = duckVM_global_set(duckVM, objectPtr1, ptrdiff2);
 		if (e) break;
-- 
2.43.0


From 859089c3dcb2418ba85cf23073b42a860d025888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 24/25] fix: reading and writing captured variables checks the
 index instead of following foreign pointers

---
 duckVM.c | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 8e9d32d..58678e0 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1335,34 +1335,17 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		}
 		{
 			// Need another stack with same depth as call stack to pull out upvalues.
-			// Like to live dangerously?
 			if (ptrdiff1 < 0) {
 				e = dl_error_invalidValue;
 				break;
 			}
 			e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff2);
 			if (e) break;
-			duckVM_object_t *upvalue = DL_ARRAY_GETTOPADDRESS(duckVM->upvalue_array_call_stack,
-			                                                  duckVM_upvalueArray_t).upvalues[ptrdiff1];
-			if (upvalue->value.upvalue.type == duckVM_upvalue_type_stack_index) {
-				e = dl_array_set(&duckVM->stack, &object1, upvalue->value.upvalue.value.stack_index);
-				if (e) break;
-			}
-			else if (upvalue->value.upvalue.type == duckVM_upvalue_type_heap_object) {
-				*upvalue->value.upvalue.value.heap_object = object1;
-			}
-			else {
-				while (upvalue->value.upvalue.type == duckVM_upvalue_type_heap_upvalue) {
-					upvalue = upvalue->value.upvalue.value.heap_upvalue;
-				}
-				if (upvalue->value.upvalue.type == duckVM_upvalue_type_stack_index) {
-					e = dl_array_set(&duckVM->stack, &object1, upvalue->value.upvalue.value.stack_index);
-					if (e) break;
-				}
-				else {
-					*upvalue->value.upvalue.value.heap_object = object1;
-				}
-			}
+			duckVM_upvalueArray_t upvalueArray;
+			e = dl_array_getTop(&duckVM->upvalue_array_call_stack, &upvalueArray);
+			if (e) break;
+			e = duckVM_upvalueArray_setUpvalue(duckVM, upvalueArray, &object1, ptrdiff1);
+			if (e) break;
 		}
 		break;
 
@@ -5262,6 +5245,7 @@ dl_error_t duckVM_upvalueArray_getUpvalue(duckVM_t *duckVM,
 
 	if (object == dl_null) return dl_error_nullPointer;
 
+	if ((index < 0) || ((dl_size_t) index >= upvalueArray.length)) return dl_error_invalidValue;
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
 	/* Follow the chain of upvalues. */
@@ -5298,6 +5282,7 @@ dl_error_t duckVM_upvalueArray_setUpvalue(duckVM_t *duckVM,
 
 	if (object == dl_null) return dl_error_nullPointer;
 
+	if ((index < 0) || ((dl_size_t) index >= upvalueArray.length)) return dl_error_invalidValue;
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
 	/* Follow the chain of upvalues. */
-- 
2.43.0


From d170a6b5bafd12f4c141a22afaa2b304192a5321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 25/25] fix: releasing and capturing variables checks its
 operands instead of touching foreign memory

---
 duckVM.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 58678e0..c31da70 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1162,13 +1162,20 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			else if (ptrdiff1 < 0) {
 				/* Capture upvalue in currently executing function. */
 				ptrdiff1 = -(ptrdiff1 + 1);
+				duckVM_upvalueArray_t currentUpvalueArray;
+				e = dl_array_getTop(&duckVM->upvalue_array_call_stack, &currentUpvalueArray);
+				if (!e && ((dl_size_t) ptrdiff1 >= currentUpvalueArray.length)) e = dl_error_invalidValue;
+				if (e) {
+					eError = duckVM_error_pushRuntime(duckVM,
+					                                  DL_STR("duckVM_execute->push-closure: Upvalue index out of bounds."));
+					if (eError) e = eError;
+					break;
+				}
 				duckVM_object_t upvalue;
 				upvalue.type = duckVM_object_type_upvalue;
 				upvalue.value.upvalue.type = duckVM_upvalue_type_heap_upvalue;
 				/* Link new upvalue to upvalue from current context. */
-				upvalue.value.upvalue.value.heap_upvalue = (DL_ARRAY_GETTOPADDRESS(duckVM->upvalue_array_call_stack,
-				                                                                   duckVM_upvalueArray_t)
-				                                            .upvalues[ptrdiff1]);
+				upvalue.value.upvalue.value.heap_upvalue = currentUpvalueArray.upvalues[ptrdiff1];
 				e = duckVM_gclist_pushObject(duckVM, &upvalue_pointer, upvalue);
 				if (e) {
 					eError = duckVM_error_pushRuntime(duckVM,
@@ -1288,7 +1295,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			}
 			ptrdiff1 = duckVM->stack.elements_length - ptrdiff1;
-			if (ptrdiff1 < 0) {
+			if ((ptrdiff1 < 0) || ((dl_size_t) ptrdiff1 >= duckVM->stack.elements_length)) {
 				e = dl_error_invalidValue;
 				break;
 			}
-- 
2.43.0

