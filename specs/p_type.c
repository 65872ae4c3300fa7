/* Contracts of type-of, make-type, make-instance and the composite accessors, on the interpreter's real
 * instruction step.  The collector may run at every allocation (vm_heap.h, GCMODEL). */
#define GCMODEL
#include "vm.h"

static void begin(int opcode) { vm_setup(); bc[0] = (dl_uint8_t) opcode; }
static int is_composite(const duckVM_object_t *o) { return o->type == duckVM_object_type_composite; }
static int is_ic(duckVM_object_t *p) { return p && p->type == duckVM_object_type_internalComposite; }
/* pre-existing heap: boxed values and composites that refer to each other in any way */
static void heap_values(void) {
	int k;
#define HV(k) IN_OBJ(*heap_obj(k), "H" #k, duckVM_object_type_bool, duckVM_object_type_internalComposite); \
	IN_SEL(ext_root[k], "H" #k ".root", 0, 1);
	HV(0) HV(1) HV(2)
	for (k = 0; k < NH; k++) {
		duckVM_object_t *h = heap_obj(k);
		ASSUME(h->type <= duckVM_object_type_user || h->type == duckVM_object_type_internalComposite);
	}
	for (k = 0; k < NH; k++) {
		duckVM_object_t *h = heap_obj(k);
		if (is_composite(h)) ASSUME(is_ic(h->value.composite));
		if (is_ic(h)) ASSUME(h->value.internalComposite.value && h->value.internalComposite.function
			&& !is_ic(h->value.internalComposite.value) && !is_ic(h->value.internalComposite.function));
	}
}
static int ok_value(const duckVM_object_t *o) { return !is_composite(o) || is_ic(o->value.composite); }
static int is_candidate(duckVM_object_t *p) {
	int k;
#if NATIVE
	if (native_unrooted) return 0;   /* a lost cell may have been handed out again */
#endif
	for (k = 0; k < NH; k++) if (p == heap_obj(k)) return 1;
	return 0;
}
static int lost(int k) {
#if NATIVE
	(void) k;
	return native_unrooted;
#else
	return dead_h[k];
#endif
}
static void frame_heap_live(duckVM_object_t *except) {
	int k;
	for (k = 0; k < NH; k++)
		if (!lost(k) && heap_obj(k) != except) CHECK("frame: other heap objects unchanged", obj_eq(*heap_obj(k), H_before[k]));
}
/* p is a cell of its own that holds the value v */
static int boxes(duckVM_object_t *p, const duckVM_object_t *v) { return p && !is_candidate(p) && obj_eq(*p, *v); }

static void type_of(int opcode, int w) {
	duckVM_object_t a;
	u64 d1, t;
	dl_error_t e;
	begin(opcode);
	heap_values();
	IN_DIST(d1, "d1", 1, w);
	IN_VALUE(a, "A");
	ASSUME(ok_value(&a));
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, a); }
	t = is_composite(&a) ? a.value.composite->value.internalComposite.type : (u64) a.type;
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap_live(dl_null); frame_rest();
	CHECK("no type is created", vm.nextUserType == nextType0);
	if (dist_ok(d1)) {
		CHECK("asking for the type succeeds (unless out of memory)", !e || alloc_failed);
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			CHECK("the result is the value's type: a composite's own type, otherwise the built-in one", r.type == duckVM_object_type_type && r.value.type == t);
			CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
			REACH("success");
		}
	}
	else {
		CHECK("an operand outside the stack is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
/* Invariant: every type value handed out so far is below nextUserType, which never decreases (short of 2^64
 * types); so a result equal to the old counter differs from all of them. */
HARNESS(H_maketype) {
	dl_error_t e;
	begin(duckLisp_instruction_makeType);
	heap_values();
	ASSUME(vm.nextUserType >= duckVM_object_type_last && vm.nextUserType < ~0UL);
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap_live(dl_null); frame_rest();
	CHECK("making a type succeeds (unless out of memory)", !e || alloc_failed);
	CHECK("the type counter never decreases and stays above the built-in types", vm.nextUserType >= nextType0);
	if (!e) {
		duckVM_object_t r;
		pushed_one();
		r = STK_get(n0);
		CHECK("the result is a type not handed out before", r.type == duckVM_object_type_type && r.value.type >= nextType0);
		CHECK("the result counts as handed out from now on", vm.nextUserType > r.value.type);
		CHECK("instruction pointer advances", ip_after == bc + 1);
		REACH("success");
	}
}
static void instance(int opcode, int w) {
	duckVM_object_t t, v, f;
	u64 d1, d2, d3;
	dl_error_t e;
	int ok;
	begin(opcode);
	heap_values();
	IN_DIST(d1, "d1", 1, w); IN_DIST(d2, "d2", 1 + w, w); IN_DIST(d3, "d3", 1 + 2 * w, w);
	IN_VALUE(t, "T"); IN_VALUE(v, "V"); IN_VALUE(f, "F");
	ASSUME(ok_value(&t) && ok_value(&v) && ok_value(&f));
	if (d2 == d1) v = t;
	if (d3 == d1) f = t; else if (d3 == d2) f = v;
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, t); }
	if (dist_ok(d2)) { FP[2] = n0 - d2; STK_set(n0 - d2, v); }
	if (dist_ok(d3)) { FP[3] = n0 - d3; STK_set(n0 - d3, f); }
	ok = dist_ok(d1) && dist_ok(d2) && dist_ok(d3) && t.type == duckVM_object_type_type && t.value.type >= duckVM_object_type_last;
	vm_before();
	e = vm_step();
	frame_slots(); frame_heap_live(dl_null); frame_rest();
	CHECK("no type is created", vm.nextUserType == nextType0);
	if (ok) {
		CHECK("making an instance succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
		if (!e) {
			duckVM_object_t r, *ic;
			frame_lockstep();
			pushed_one();
			r = STK_get(n0);
			ic = r.value.composite;
			CHECK("the result is a composite of its own", is_composite(&r) && is_ic(ic) && !is_candidate(ic));
			if (is_composite(&r) && is_ic(ic)) {
				CHECK("it has the given type", ic->value.internalComposite.type == t.value.type);
				CHECK("its value is the given one", boxes(ic->value.internalComposite.value, &v));
				CHECK("its function is the given one", boxes(ic->value.internalComposite.function, &f));
				CHECK("value and function have cells of their own", ic->value.internalComposite.value != ic->value.internalComposite.function
					&& ic->value.internalComposite.value != ic && ic->value.internalComposite.function != ic);
			}
			CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 3 * w);
			REACH("success");
		}
	}
	else {
		CHECK("a built-in type, something that is no type, or an operand outside the stack, is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
static void get_part(int function, int opcode, int w) {
	duckVM_object_t a, *x = dl_null;
	u64 d1;
	dl_error_t e;
	begin(opcode);
	heap_values();
	IN_DIST(d1, "d1", 1, w);
	IN_VALUE(a, "A");
	ASSUME(ok_value(&a));
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, a); }
	if (is_composite(&a)) {
		if (function) x = a.value.composite->value.internalComposite.function; else x = a.value.composite->value.internalComposite.value;
	}
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap_live(dl_null); frame_rest();
	if (dist_ok(d1) && is_composite(&a)) {
		CHECK("reading a composite succeeds (unless out of memory)", !e || alloc_failed);
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			CHECK("exactly the stored part is returned", obj_eq(r, *x));
			CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
			REACH("success");
		}
	}
	else {
		CHECK("not a composite, or an operand outside the stack, is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
static void set_part(int function, int opcode, int w) {
	duckVM_object_t c, v;
	u64 d1, d2;
	dl_error_t e;
	int ok;
	begin(opcode);
	heap_values();
	IN_DIST(d1, "d1", 1, w); IN_DIST(d2, "d2", 1 + w, w);
	IN_VALUE(c, "C"); IN_VALUE(v, "V");
	ASSUME(ok_value(&c) && ok_value(&v));
	if (d2 == d1) v = c;
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, c); }
	if (dist_ok(d2)) { FP[2] = n0 - d2; STK_set(n0 - d2, v); }
	ok = dist_ok(d1) && dist_ok(d2) && is_composite(&c);
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_rest();
	if (ok && !e) {
		int k;
		duckVM_object_t *ic = c.value.composite;
		duckVM_object_t before = {0};
		for (k = 0; k < NH; k++) if (ic == heap_obj(k)) before = H_before[k];
		frame_heap_live(ic);
		CHECK("the composite stays one of the same type", ic->type == duckVM_object_type_internalComposite
			&& ic->value.internalComposite.type == before.value.internalComposite.type);
		CHECK("exactly the addressed part is replaced by the value, in a cell of its own",
			boxes(function ? ic->value.internalComposite.function : ic->value.internalComposite.value, &v));
		CHECK("the other part is unchanged", function ? ic->value.internalComposite.value == before.value.internalComposite.value
			: ic->value.internalComposite.function == before.value.internalComposite.function);
		pushed_one();
		CHECK("the composite is returned", obj_eq(STK_get(n0), c));
		CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 2 * w);
		REACH("success");
	}
	else if (ok) {
		CHECK("writing to a composite succeeds (unless out of memory)", alloc_failed || NATIVE);
	}
	else {
		CHECK("not a composite, or an operand outside the stack, is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		frame_heap_live(dl_null);
		REACH("error");
	}
}
#define OPS(name, op, F, ...) \
	HARNESS(H_##name##8) { F(__VA_ARGS__ duckLisp_instruction_##op##8, 1); } \
	HARNESS(H_##name##16) { F(__VA_ARGS__ duckLisp_instruction_##op##16, 2); } \
	HARNESS(H_##name##32) { F(__VA_ARGS__ duckLisp_instruction_##op##32, 4); }
#define C_ ,
OPS(typeof, typeof, type_of, )
OPS(instance, makeInstance, instance, )
OPS(value, compositeValue, get_part, 0 C_)
OPS(function, compositeFunction, get_part, 1 C_)
OPS(setvalue, setCompositeValue, set_part, 0 C_)
OPS(setfunction, setCompositeFunction, set_part, 1 C_)
