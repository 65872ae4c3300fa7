/* Contracts of the call instructions on the interpreter's real instruction step.
 * H0: code a callable may refer to, H1: captured variables of a closure, H2..: composites, boxed callables, lists.
 * Precondition of compiled code: the arguments are on the stack and the callee is not one of them.
 */
#if defined(SURPLUS) && SURPLUS > 0 || defined(GC)
#define GCMODEL
#endif
#define NN 6
#include "vm.h"

static int callback_calls;
static u64 callback_depth, callback_calls_depth;
static int callback_error;
static dl_error_t the_callback(duckVM_t *v) {
	callback_calls++;
	callback_depth = v->stack.elements_length;
	callback_calls_depth = v->call_stack.elements_length;
	return callback_error ? dl_error_invalidValue : dl_error_ok;
}
#if !NATIVE
/* ---- contract: duckVM_global_get (enforced on the real function by P11) */
static int global_known;
dl_error_t c_global_get(const duckVM_t *v, duckVM_object_t **out, const dl_ptrdiff_t key) {
	(void) v; (void) key;
	if (!global_known) return dl_error_invalidValue;
	*out = heap_obj(2);
	return dl_error_ok;
}
#endif
static dl_uint8_t bc2[64];
static u64 ulen;
static void begin(int opcode) {
#ifdef GCMODEL
	fixed_layout = 8;
#endif
	vm_setup();
	bc[0] = (dl_uint8_t) opcode;
	callback_calls = 0;
	IN_SEL(callback_error, "cberr", 0, 1);
}
#ifdef GCMODEL
#define DIST(d, id, pos, w, v) do { int k_; (d) = (v); for (k_ = 0; k_ < (w); k_++) bc[(pos) + k_] = 0; bc[(pos) + (w) - 1] = (v); } while (0)
#else
#define DIST(d, id, pos, w, v) IN_DIST(d, id, pos, w)
#endif
static int is_closure(const duckVM_object_t *o) { return o->type == duckVM_object_type_closure; }
static int is_function(const duckVM_object_t *o) { return o->type == duckVM_object_type_function; }
static int is_composite(const duckVM_object_t *o) { return o->type == duckVM_object_type_composite; }
static int is_list(const duckVM_object_t *o) { return o->type == duckVM_object_type_list; }
static void heap_code(void) {
	heap_obj(0)->type = duckVM_object_type_bytecode;
	heap_obj(0)->value.bytecode.bytecode = bc2;
	heap_obj(0)->value.bytecode.bytecode_length = sizeof bc2;
	IN_SEL(ulen, "ulen", 0, 1000000);
	heap_obj(1)->type = duckVM_object_type_upvalueArray;
	heap_obj(1)->value.upvalue_array.length = ulen;
#if NATIVE
	heap_obj(0)->value.bytecode.bytecode = malloc(sizeof bc2);
	heap_obj(1)->value.upvalue_array.upvalues = calloc(ulen ? ulen : 1, sizeof(void *));
#else
	{ duckVM_object_t **up_; heap_obj(1)->value.upvalue_array.upvalues = up_; }
#endif
}
/* a callable value refers to code and captured variables */
static int ok_value(duckVM_object_t *o) {
	if (is_closure(o)) {
#if NATIVE
		if (rt_in("fixclosure", 0, 7)) { o->value.closure.bytecode = heap_obj(0); o->value.closure.upvalue_array = heap_obj(1); }
		o->value.closure.name = (o->value.closure.name & 63);
		if (rt_in("smallarity", 0, 3)) o->value.closure.arity &= 3;
#endif
		return o->value.closure.bytecode == heap_obj(0) && o->value.closure.upvalue_array == heap_obj(1);
	}
	if (is_function(o)) o->value.function.callback = the_callback;
	return 1;
}
static duckVM_callFrame_t gframe; static duckVM_upvalueArray_t gup;
static void before(void) {
	vm_before();
	if (gc_i < c0) { gframe = *CALLS(gc_i); }
	if (gc_i <= c0) gup = *UPCALLS(gc_i + (NATIVE ? 0 : 1));
	if (!NATIVE && gc_i >= c0) gc_i = ~0UL;
}
static void frame_calls(void) {
	if (gc_i < c0 && vm.call_stack.elements_length > gc_i) {
		CHECK("frame: older call frames unchanged", CALLS(gc_i)->ip == gframe.ip && CALLS(gc_i)->bytecode == gframe.bytecode);
	}
	if (gc_i < c0) CHECK("frame: older captured-variable contexts unchanged",
		UPCALLS(gc_i + (NATIVE ? 0 : 1))->upvalues == gup.upvalues && UPCALLS(gc_i + (NATIVE ? 0 : 1))->length == gup.length);
	CHECK("frame: global table size unchanged", vm.globals.elements_length == globals_len0);
	CHECK("frame: keeps running", halt_after == duckVM_halt_mode_run);
}
static void no_new_frame(void) {
	CHECK("no call frame is left behind", vm.call_stack.elements_length == c0 || alloc_failed);
	CHECK("the executing bytecode stays current", vm.currentBytecode == &bc_object);
}
/* control is in the closure's code, and a return will resume at bc + 1 + ops */
static void entered(const duckVM_object_t *f, int ops) {
	CHECK("exactly one call frame is added", vm.call_stack.elements_length == c0 + 1);
	CHECK("exactly one captured-variable context is added", vm.upvalue_array_call_stack.elements_length == upcall_len0 + 1);
	CHECK("the return point is the next instruction", CALLS(c0)->ip == bc + 1 + ops);
	CHECK("the frame remembers the caller's code", CALLS(c0)->bytecode == &bc_object);
	if (f) {
		CHECK("the callee sees its own captured variables", UPCALLS(c0 + 1)->upvalues == heap_obj(1)->value.upvalue_array.upvalues && UPCALLS(c0 + 1)->length == ulen);
		CHECK("the callee's code is current", vm.currentBytecode == heap_obj(0));
		CHECK("execution continues at the callee's first instruction", ip_after == heap_obj(0)->value.bytecode.bytecode + f->value.closure.name);
	}
	else {
		CHECK("the callee has no captured variables", UPCALLS(c0 + 1)->upvalues == dl_null && UPCALLS(c0 + 1)->length == 0);
		CHECK("the code stays current", vm.currentBytecode == &bc_object);
	}
}
#ifndef SURPLUS
#define SURPLUS 0
#endif
/* the list of the surplus arguments x[0..SURPLUS-1] */
static int holds(duckVM_object_t *p, const duckVM_object_t *v) { return p && obj_eq(*p, *v); }
static void rest_is(duckVM_object_t r, const duckVM_object_t *x, duckVM_object_t *tail) {
	duckVM_object_t *c = r.value.list;
	CHECK("surplus arguments arrive as a list", is_list(&r));
	if (!is_list(&r)) return;
#define REST(k) if (SURPLUS > (k)) { \
	int cons_ = c && c->type == duckVM_object_type_cons; \
	CHECK("the list has one pair per surplus argument", cons_); \
	if (!cons_) return; \
	CHECK("the list holds the arguments in order", holds(c->value.cons.car, &x[k])); \
	c = c->value.cons.cdr; }
	REST(0) REST(1) REST(2)
	CHECK("the list ends there", c == tail);
}

/* funcall */
static void funcall(int opcode, int w) {
	duckVM_object_t f, g, x[3];
	u64 d1, argc, k;
	dl_error_t e;
	int ok;
	begin(opcode);
	heap_code();
#ifdef COMPOSITE
	/* H2, H4: composites; H3, H5: what they wrap */
	IN_OBJ(*heap_obj(2), "H2", duckVM_object_type_internalComposite, duckVM_object_type_internalComposite);
	IN_VALUE(*heap_obj(3), "H3");
	IN_OBJ(*heap_obj(4), "H4", duckVM_object_type_internalComposite, duckVM_object_type_internalComposite);
	IN_VALUE(*heap_obj(5), "H5");
	heap_obj(2)->value.internalComposite.function = heap_obj(3);
	heap_obj(4)->value.internalComposite.function = heap_obj(5);
	ASSUME(!is_composite(heap_obj(5)) && ok_value(heap_obj(3)) && ok_value(heap_obj(5)));
	if (NATIVE && is_composite(heap_obj(3))) heap_obj(3)->value.composite = heap_obj(4);
	ASSUME(!is_composite(heap_obj(3)) || heap_obj(3)->value.composite == heap_obj(4));
	IN_OBJ(f, "F", duckVM_object_type_composite, duckVM_object_type_composite);
	f.value.composite = heap_obj(2);
	g = *heap_obj(3);
	if (is_composite(&g)) g = *heap_obj(5);
#else
	IN_VALUE(f, "F");
	ASSUME(!is_composite(&f) && ok_value(&f));
	g = f;
#endif
	IN_SEL(argc, "argc", 0, 255);
	if (NATIVE && argc > 5) argc %= 6;
	DIST(d1, "d1", 1, w, 5);
	bc[1 + w] = (dl_uint8_t) argc;
	ASSUME(argc <= n0 && (!dist_ok(d1) || d1 > argc));
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, f); }
#if SURPLUS > 0
	IN_VALUE(x[SURPLUS - 1], "X0"); STK_set(n0 - 1, x[SURPLUS - 1]);
#if SURPLUS > 1
	IN_VALUE(x[SURPLUS - 2], "X1"); FP[2] = n0 - 2; STK_set(n0 - 2, x[SURPLUS - 2]);
#endif
#endif
	ok = dist_ok(d1) && ((is_closure(&g) && (g.value.closure.variadic ? argc >= g.value.closure.arity : argc == g.value.closure.arity)) || is_function(&g));
	if (is_closure(&g) && g.value.closure.variadic && argc >= g.value.closure.arity) {
		if (NATIVE) ASSUME(argc - g.value.closure.arity == SURPLUS || (SURPLUS == 0 && argc == g.value.closure.arity));
		ASSUME(argc - g.value.closure.arity == SURPLUS);   /* this unit's number of surplus arguments */
	}
#if SURPLUS > 0
	ASSUME(is_closure(&g) && g.value.closure.variadic && ok);
#endif
	before();
	e = vm_step();
	frame_calls(); frame_slots();
	if (ok) {
		if (is_function(&g)) {
			CHECK("a native callback runs exactly once, with the machine as the call found it", callback_calls == 1 && callback_depth == n0 && callback_calls_depth == c0);
			CHECK("the callback's error is reported", (e != dl_error_ok) == callback_error);
			CHECK("a native callback leaves no call frame", vm.call_stack.elements_length == c0 && vm.currentBytecode == &bc_object);
			CHECK("execution continues after the call", ip_after == bc + 2 + w);
			CHECK("the stack is the callback's business alone", vm.stack.elements_length == n0);
			REACH("callback");
			return;
		}
		CHECK("no native callback runs", callback_calls == 0);
		CHECK("the call succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
		if (!e) {
			frame_lockstep();
			entered(&g, w + 1);
			if (g.value.closure.variadic) {
				CHECK("the surplus arguments are replaced by one list", vm.stack.elements_length == n0 - SURPLUS + 1);
				if (vm.stack.elements_length == n0 - SURPLUS + 1) rest_is(STK_get(n0 - SURPLUS), x, dl_null);
				REACH("variadic");
			}
			else {
				CHECK("the arguments are left as they are", vm.stack.elements_length == n0);
				REACH("closure");
			}
		}
	}
	else {
		CHECK("a wrong argument count, a value that cannot be called, or an operand outside the stack, is an error", e != dl_error_ok);
		CHECK("no native callback runs", callback_calls == 0);
		CHECK("a rejected call leaves the stack alone", vm.stack.elements_length == n0);
		no_new_frame();
		REACH("error");
	}
}
/* apply: the arguments of the call, then one list on top */
#ifdef APPLY
static int cons_ok(duckVM_object_t *h) {
	return h->type == duckVM_object_type_cons ? (h->value.cons.car == dl_null || h->value.cons.car == heap_obj(4) || h->value.cons.car == heap_obj(5)) : 1;
}
/* the argument a list element becomes: a stored pair is a list */
static duckVM_object_t as_argument(duckVM_object_t *car) {
	duckVM_object_t o = {0};
	if (car && car->type != duckVM_object_type_cons) return *car;
	o.type = duckVM_object_type_list;
	o.value.list = car;
	return o;
}
static void apply(int opcode, int w) {
	duckVM_object_t f, l, x[3], want[3];
	duckVM_object_t *p;
	u64 d1, argc, k, need, listlen = 0, taken = 0;
	dl_error_t e;
	int ok, proper = 1;
	begin(opcode);
	heap_code();
	IN_VALUE(f, "F");
	ASSUME(!is_composite(&f) && ok_value(&f));
	/* H2 -> H3 -> end: the list; H4, H5: its elements */
	IN_OBJ(*heap_obj(2), "H2", duckVM_object_type_integer, duckVM_object_type_cons);
	IN_OBJ(*heap_obj(3), "H3", duckVM_object_type_integer, duckVM_object_type_cons);
	IN_OBJ(*heap_obj(4), "H4", duckVM_object_type_bool, duckVM_object_type_type);
	IN_OBJ(*heap_obj(5), "H5", duckVM_object_type_bool, duckVM_object_type_cons);
#if NATIVE
	for (k = 2; k < 4; k++) { if (rt_in("cons", 0, 5)) heap_obj(k)->type = duckVM_object_type_cons;
		if (heap_obj(k)->type != duckVM_object_type_cons) heap_obj(k)->type = duckVM_object_type_integer;
		else { u64 c = rt_in("car", 0, 2); heap_obj(k)->value.cons.car = c == 0 ? dl_null : c == 1 ? heap_obj(4) : heap_obj(5); } }
	if (heap_obj(2)->type == duckVM_object_type_cons) heap_obj(2)->value.cons.cdr = rt_in("cdr", 0, 3) ? heap_obj(3) : dl_null;
	if (heap_obj(3)->type == duckVM_object_type_cons) heap_obj(3)->value.cons.cdr = rt_in("end", 0, 5) ? dl_null : heap_obj(4);
	if (heap_obj(4)->type == duckVM_object_type_closure) heap_obj(4)->type = duckVM_object_type_integer;
	if (heap_obj(5)->type == duckVM_object_type_closure || heap_obj(5)->type == duckVM_object_type_composite || heap_obj(5)->type == duckVM_object_type_user) heap_obj(5)->type = duckVM_object_type_bool;
	if (heap_obj(5)->type > duckVM_object_type_user) heap_obj(5)->type = duckVM_object_type_cons;
#endif
	for (k = 2; k < 4; k++) ASSUME((heap_obj(k)->type == duckVM_object_type_integer || heap_obj(k)->type == duckVM_object_type_cons) && cons_ok(heap_obj(k)));
	ASSUME(heap_obj(2)->type != duckVM_object_type_cons || !heap_obj(2)->value.cons.cdr || heap_obj(2)->value.cons.cdr == heap_obj(3));
	ASSUME(heap_obj(3)->type != duckVM_object_type_cons || !heap_obj(3)->value.cons.cdr || heap_obj(3)->value.cons.cdr == heap_obj(4));
	ASSUME(ok_value(heap_obj(4)) && ok_value(heap_obj(5)));
	IN_VALUE(l, "L");
	ASSUME(ok_value(&l));
	if (NATIVE && is_list(&l) && l.value.list) l.value.list = heap_obj(2);
	ASSUME(!is_list(&l) || !l.value.list || l.value.list == heap_obj(2));
	IN_SEL(argc, "argc", 0, 255);
	if (NATIVE && argc > 5) argc %= 3;
	DIST(d1, "d1", 1, w, 5);
	bc[1 + w] = (dl_uint8_t) argc;
	ASSUME(argc < n0 && (!dist_ok(d1) || d1 > argc + 1));
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, f); }
	STK_set(n0 - 1, l);
#if SURPLUS > 0
	FP[2] = n0 - 2; IN_VALUE(x[SURPLUS - 1], "X0"); STK_set(n0 - 2, x[SURPLUS - 1]);
#if SURPLUS > 1
	FP[3] = n0 - 3; IN_VALUE(x[SURPLUS - 2], "X1"); STK_set(n0 - 3, x[SURPLUS - 2]);
#endif
#endif
	need = f.value.closure.arity > argc ? f.value.closure.arity - argc : 0;
	p = is_list(&l) ? l.value.list : dl_null;
	for (k = 0; k < 3; k++) if (p && taken < need && proper) {
		if (p->type != duckVM_object_type_cons) { proper = 0; break; }
		want[taken++] = as_argument(p->value.cons.car);
		p = p->value.cons.cdr;
	}
	ok = dist_ok(d1) && is_closure(&f) && is_list(&l) && proper && taken == need
		&& (f.value.closure.variadic || (argc <= f.value.closure.arity && !p));
	if (is_closure(&f) && f.value.closure.variadic && argc >= f.value.closure.arity) ASSUME(argc - f.value.closure.arity == SURPLUS);
#if SURPLUS > 0
	ASSUME(ok && f.value.closure.variadic && argc >= f.value.closure.arity);
#endif
	before();
	e = vm_step();
	frame_calls();
	if (gi < n0 - 1 - SURPLUS) frame_slots();
	CHECK("no native callback runs", callback_calls == 0);
	if (ok) {
		CHECK("the call succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
		if (!e) {
			u64 base = n0 - 1;
			frame_lockstep();
			entered(&f, w + 1);
			if (taken > 0) CHECK("list elements become the missing arguments", obj_eq(STK_get(base), want[0]));
			if (taken > 1) CHECK("list elements become the missing arguments", obj_eq(STK_get(base + 1), want[1]));
			if (f.value.closure.variadic) {
				CHECK("what is left is passed as one list", vm.stack.elements_length == base + taken - SURPLUS + 1);
				if (vm.stack.elements_length == base + taken - SURPLUS + 1) rest_is(STK_get(base + taken - SURPLUS), x, p);
				REACH("variadic");
			}
			else {
				CHECK("exactly the missing arguments are pushed", vm.stack.elements_length == base + taken);
				REACH("closure");
			}
		}
	}
	else {
		CHECK("a wrong argument count, no closure, no proper list, or an operand outside the stack, is an error", e != dl_error_ok);
		no_new_frame();
		REACH("error");
	}
}
#endif
/* call: a fixed distance within the same code */
static void call(int opcode, int w) {
	i64 off;
	dl_error_t e;
	begin(opcode);
	heap_code();
	IN_BYTES(6);
#if NATIVE
	{ u64 k; u64 v = rt_in("aim", 0, 20); for (k = 1; k <= (u64) w; k++) bc[k] = 0; bc[w] = (dl_uint8_t) v; }
#endif
	off = operand_signed(1, w);
	before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_calls(); frame_heap(0);
	CHECK("the stack is left alone", vm.stack.elements_length == n0);
	CHECK("a call succeeds (unless out of memory)", !e || alloc_failed);
	if (!e) {
		entered(dl_null, w + 1);
		CHECK("execution continues exactly the given distance away", ip_after == bc + 1 + w + off);
		REACH("called");
	}
	else CHECK("a failed call does not jump", ip_after == bc + 1 + w + 1);
}
/* c-call: the native callback stored in a global */
static void ccall(int opcode, int w) {
	dl_error_t e;
	int known, ok;
	begin(opcode);
	heap_code();
	IN_BYTES(4);
	IN_VALUE(*heap_obj(2), "G");
	ASSUME(ok_value(heap_obj(2)));
	IN_SEL(known, "known", 0, 1);
#if NATIVE
	if (known) { dl_ptrdiff_t key = (dl_ptrdiff_t) operand(1, w); duckVM_object_t *o = heap_obj(2); dl_array_pushElement(&vm.globals, &o); dl_array_pushElement(&vm.globals_map, &key); }
	if (native_unrooted && !known) ASSUME(0);
#else
	global_known = known;
#endif
	ok = known && is_function(heap_obj(2));
	before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap(0); frame_calls();
	CHECK("no call frame is left", vm.call_stack.elements_length == c0 && vm.upvalue_array_call_stack.elements_length == upcall_len0 && vm.currentBytecode == &bc_object);
	CHECK("the stack is the callback's business alone", vm.stack.elements_length == n0);
	if (ok) {
		CHECK("the callback runs exactly once, with the machine as the call found it", callback_calls == 1 && callback_depth == n0 && callback_calls_depth == c0);
		CHECK("the callback's error is reported", (e != dl_error_ok) == callback_error);
		CHECK("execution continues after the call", ip_after == bc + 1 + w);
		REACH("success");
	}
	else {
		CHECK("an unknown global, or one that is no callback, is an error", e != dl_error_ok);
		CHECK("nothing is called", callback_calls == 0);
		REACH("error");
	}
}
#define OPS(name, op, F) \
	HARNESS(H_##name##8) { F(duckLisp_instruction_##op##8, 1); } \
	HARNESS(H_##name##16) { F(duckLisp_instruction_##op##16, 2); } \
	HARNESS(H_##name##32) { F(duckLisp_instruction_##op##32, 4); }
#ifdef APPLY
OPS(apply, apply, apply)
#else
OPS(funcall, funcall, funcall)
OPS(call, call, call)
OPS(ccall, ccall, ccall)
#endif
