/* Contracts of cons, car, cdr, set-car, set-cdr and null? on lists, on the interpreter's real instruction step.
 * The collector may run at every allocation (vm_heap.h, GCMODEL): what is not reachable then is lost. */
#define GCMODEL
#include "vm.h"

static void begin(int opcode) { vm_setup(); bc[0] = (dl_uint8_t) opcode; }
/* pre-existing heap: NH objects, each a boxed value or a pair, pointing to each other in any way */
static void heap_values(void) {
	int k;
#define HV(k) IN_OBJ(*heap_obj(k), "H" #k, duckVM_object_type_bool, duckVM_object_type_cons); \
	IN_SEL(ext_root[k], "H" #k ".root", 0, 1);
	HV(0) HV(1) HV(2)
	for (k = 0; k < NH; k++) {
		duckVM_object_t *h = heap_obj(k);
		/* a heap object is a value that is not a list, or a pair (lists are stored as pointers to pairs) */
		ASSUME(h->type == duckVM_object_type_cons || (h->type <= duckVM_object_type_user && h->type != duckVM_object_type_list));
	}
}
static int is_pair(duckVM_object_t *p) { return p && p->type == duckVM_object_type_cons; }
static int is_list_ok(const duckVM_object_t *o) { return o->type != duckVM_object_type_list || !o->value.list || is_pair(o->value.list); }
static int is_seq_other(const duckVM_object_t *o) { return o->type == duckVM_object_type_vector || o->type == duckVM_object_type_string; }
/* v is the value that a stored car or cdr pointer stands for */
static int reads_as(const duckVM_object_t *v, duckVM_object_t *p) {
	if (!p) return v->type == duckVM_object_type_list && !v->value.list;
	if (p->type == duckVM_object_type_cons) return v->type == duckVM_object_type_list && v->value.list == p;
	return obj_eq(*p, *v);
}
static int is_candidate(duckVM_object_t *p) {
	int k;
#if NATIVE
	if (native_unrooted) return 0;   /* a lost cell may have been handed out again */
#endif
	for (k = 0; k < NH; k++) if (p == heap_obj(k)) return 1;
	return 0;
}
static int lost(int k) {
#if NATIVE
	(void) k;
	return native_unrooted;
#else
	return dead_h[k];
#endif
}
static void frame_heap_live(duckVM_object_t *except) {
	int k;
	for (k = 0; k < NH; k++)
		if (!lost(k) && heap_obj(k) != except) CHECK("frame: other heap objects unchanged", obj_eq(*heap_obj(k), H_before[k]));
}
/* stored pointer p holds the value v: as the list itself, or in a fresh box */
static int holds(duckVM_object_t *p, const duckVM_object_t *v) {
	if (v->type == duckVM_object_type_list) return p == v->value.list;
	return p && !is_candidate(p) && p->type != duckVM_object_type_cons && obj_eq(*p, *v);
}

static void cons(int opcode, int w) {
	duckVM_object_t a, b;
	u64 d1, d2;
	dl_error_t e;
	begin(opcode);
	heap_values();
	IN_DIST(d1, "d1", 1, w); IN_DIST(d2, "d2", 1 + w, w);
	IN_VALUE(a, "A"); IN_VALUE(b, "B");
	ASSUME(is_list_ok(&a) && is_list_ok(&b));
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, a); }
	if (dist_ok(d2)) { FP[2] = n0 - d2; STK_set(n0 - d2, b); }
	if (d1 == d2) a = b;
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap_live(dl_null); frame_rest();
	if (dist_ok(d1) && dist_ok(d2)) {
		CHECK("building a pair succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
		CHECK("the first operand is untouched", obj_eq(STK_get(n0 - d1), a));
		CHECK("the second operand is untouched", obj_eq(STK_get(n0 - d2), b));
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			CHECK("result is a non-empty list", r.type == duckVM_object_type_list && r.value.list);
			if (r.value.list) {
				CHECK("the pair is fresh", !is_candidate(r.value.list) && r.value.list->type == duckVM_object_type_cons);
				CHECK("the head reads back as the first operand", holds(r.value.list->value.cons.car, &a));
				CHECK("the tail reads back as the second operand", holds(r.value.list->value.cons.cdr, &b));
				CHECK("the parts do not share a cell with the pair or each other",
					r.value.list->value.cons.car != r.value.list && r.value.list->value.cons.cdr != r.value.list
					&& (a.type == duckVM_object_type_list || b.type == duckVM_object_type_list
						|| r.value.list->value.cons.car != r.value.list->value.cons.cdr));
			}
			CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 2 * w);
			REACH("success");
		}
	}
	else {
		CHECK("an operand outside the stack is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
static void part(int tail, int opcode, int w) {
	duckVM_object_t a, r, *x = dl_null;
	u64 d1;
	dl_error_t e;
	begin(opcode);
	heap_values();
	IN_DIST(d1, "d1", 1, w);
	IN_VALUE(a, "A");
	ASSUME(is_list_ok(&a) && !is_seq_other(&a));
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, a); }
	if (a.type == duckVM_object_type_list && a.value.list) {
		if (tail) x = a.value.list->value.cons.cdr; else x = a.value.list->value.cons.car;
	}
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap_live(dl_null); frame_rest();
	if (dist_ok(d1) && a.type == duckVM_object_type_list) {
		CHECK("reading a list succeeds (unless out of memory)", !e || alloc_failed);
		if (!e) {
			pushed_one();
			r = STK_get(n0);
			CHECK("the stored part is returned (nil for nil)", reads_as(&r, x));
			CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
			REACH("success");
		}
	}
	else {
		CHECK("not a sequence, or an operand outside the stack, is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
static void set_part(int tail, int opcode, int w) {
	duckVM_object_t v, s;
	u64 d1, d2;
	dl_error_t e;
	int ok;
	begin(opcode);
	heap_values();
	IN_DIST(d1, "d1", 1, w); IN_DIST(d2, "d2", 1 + w, w);
	IN_VALUE(v, "V"); IN_VALUE(s, "S");
	ASSUME(is_list_ok(&v) && is_list_ok(&s) && s.type != duckVM_object_type_vector);
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, v); }
	if (dist_ok(d2)) { FP[2] = n0 - d2; STK_set(n0 - d2, s); }
	if (d1 == d2) { ASSUME(v.type != duckVM_object_type_vector); v = s; }
	ok = dist_ok(d1) && dist_ok(d2) && s.type == duckVM_object_type_list && s.value.list;
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_rest();
	if (ok && !e) {
		int k;
		duckVM_object_t *c = s.value.list;
		duckVM_object_t before = {0};
		for (k = 0; k < NH; k++) if (c == heap_obj(k)) before = H_before[k];
		frame_heap_live(c);
		CHECK("the pair is still a pair", c->type == duckVM_object_type_cons);
		CHECK("exactly the addressed field is replaced by the value",
			holds(tail ? c->value.cons.cdr : c->value.cons.car, &v));
		CHECK("the other field is unchanged", tail ? c->value.cons.car == before.value.cons.car : c->value.cons.cdr == before.value.cons.cdr);
		pushed_one();
		CHECK("the sequence is returned", obj_eq(STK_get(n0), s));
		CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 2 * w);
		REACH("success");
	}
	else if (ok) {
		CHECK("writing to a pair succeeds (unless out of memory)", alloc_failed || NATIVE);
	}
	else {
		CHECK("not a pair, or an operand outside the stack, is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		frame_heap_live(dl_null);
		REACH("error");
	}
}
static void nullp(int opcode, int w) {
	duckVM_object_t a;
	u64 d1, vlen = 0;
	dl_error_t e;
	int x;
	begin(opcode);
	heap_values();
	IN_DIST(d1, "d1", 1, w);
	IN_VALUE(a, "A");
	IN_SEL(vlen, "vlen", 0, NATIVE ? 4 : 1UL << 40);
	ASSUME(is_list_ok(&a));
	if (a.type == duckVM_object_type_string) {
#if NATIVE
		a.value.string.offset %= 5; a.value.string.length %= 5;
#endif
	}
	if (a.type == duckVM_object_type_vector && a.value.vector.internal_vector) {
#if NATIVE
		a.value.vector.offset %= 5;
#endif
		a.value.vector.internal_vector->type = duckVM_object_type_internalVector;
		a.value.vector.internal_vector->value.internal_vector.values = dl_null;
		a.value.vector.internal_vector->value.internal_vector.initialized = dl_false;
		a.value.vector.internal_vector->value.internal_vector.length = vlen;
	}
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, a); }
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap_live(dl_null); frame_rest();
	x = a.type == duckVM_object_type_list ? !a.value.list
		: a.type == duckVM_object_type_vector ? !a.value.vector.internal_vector || (u64) a.value.vector.offset >= vlen
		: a.type == duckVM_object_type_string ? !a.value.string.internalString || (u64) a.value.string.offset >= a.value.string.length : 0;
	if (dist_ok(d1)) {
		CHECK("asking for emptiness succeeds (unless out of memory)", !e || alloc_failed);
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			CHECK("true exactly for an empty sequence", r.type == duckVM_object_type_bool && !r.value.boolean == !x);
			CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
			REACH("success");
		}
	}
	else {
		CHECK("an operand outside the stack is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
#define OPS(name, op, F, ...) \
	HARNESS(H_##name##8) { F(__VA_ARGS__ duckLisp_instruction_##op##8, 1); } \
	HARNESS(H_##name##16) { F(__VA_ARGS__ duckLisp_instruction_##op##16, 2); } \
	HARNESS(H_##name##32) { F(__VA_ARGS__ duckLisp_instruction_##op##32, 4); }
#define C_ ,
OPS(cons, cons, cons, )
OPS(car, car, part, 0 C_)
OPS(cdr, cdr, part, 1 C_)
OPS(setcar, setCar, set_part, 0 C_)
OPS(setcdr, setCdr, set_part, 1 C_)
OPS(null, nullp, nullp, )
