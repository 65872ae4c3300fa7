/* Contract of make-string on the interpreter's real instruction step, for sequences of at most LEN elements. */
#define STR_FOOTPRINT
#define STR_FOOTPRINT_N 1
static unsigned long str_fp[1];
#include "vm.h"
#ifndef LEN
#define LEN 2
#endif
static void begin(int opcode) { vm_setup(); bc[0] = (dl_uint8_t) opcode; }
static int is_int(duckVM_object_t *o) { return o->type == duckVM_object_type_integer; }
static void frame_heap_(void) {
#if NATIVE
	if (native_unrooted) return;
#endif
	frame_heap(0);
}
static void result_is(dl_error_t e, int ok, int ok_stack, u64 n, const dl_uint8_t *want, int w) {
	frame_slots(); frame_rest(); frame_heap_();
	if (ok) {
		CHECK("making a string succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
		if (!e) {
			duckVM_object_t r, *c;
			frame_lockstep();
			pushed_one();
			r = STK_get(n0);
			c = r.value.string.internalString;
			CHECK("the result is a string with one byte per element", r.type == duckVM_object_type_string && r.value.string.offset == 0 && r.value.string.length == n);
			CHECK("its storage is fresh and of that length", c && c->type == duckVM_object_type_internalString && c->value.internalString.value_length == n);
			if (c && n) {
				CHECK("every byte is the low byte of its element", str_fp[0] >= n || c->value.internalString.value[str_fp[0]] == want[str_fp[0]]);
			}
			CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
			REACH("success");
		}
	}
	else {
		CHECK("an element that is no integer, a cyclic or improper list, or another value, is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
#ifdef VEC
static duckVM_object_t *sto[LEN + 1];
static void mk(int opcode, int w) {
	duckVM_object_t v;
	u64 d1, vlen, k, n = 0;
	dl_uint8_t want[LEN + 1];
	int ok;
	begin(opcode);
	IN_DIST(d1, "d1", 1, w);
	IN_OBJ(*heap_obj(1), "H1", duckVM_object_type_bool, duckVM_object_type_type);
	IN_OBJ(*heap_obj(2), "H2", duckVM_object_type_bool, duckVM_object_type_type);
#if NATIVE
	if (rt_in("H1int", 0, 3)) heap_obj(1)->type = duckVM_object_type_integer;
	if (rt_in("H2int", 0, 3)) heap_obj(2)->type = duckVM_object_type_integer;
#endif
	IN_SEL(vlen, "vlen", 0, LEN);
	for (k = 0; k < LEN; k++) { u64 c; char id[4] = "el0"; id[2] += k; IN_SEL(c, id, 0, 1); sto[k] = c ? heap_obj(2) : heap_obj(1); }
	heap_obj(0)->type = duckVM_object_type_internalVector;
	heap_obj(0)->value.internal_vector.length = vlen;
	heap_obj(0)->value.internal_vector.initialized = dl_true;
#if NATIVE
	{ duckVM_object_t **v_ = vlen ? malloc(vlen * sizeof *v_) : dl_null; for (k = 0; k < vlen; k++) v_[k] = sto[k]; heap_obj(0)->value.internal_vector.values = v_; }
#else
	heap_obj(0)->value.internal_vector.values = vlen ? sto : dl_null;
#endif
	IN_OBJ(v, "V", duckVM_object_type_vector, duckVM_object_type_vector);
	if (NATIVE) v.value.vector.offset %= 4;
	ASSUME(!v.value.vector.internal_vector || v.value.vector.internal_vector == heap_obj(0));
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, v); }
	ok = dist_ok(d1);
	if (v.value.vector.internal_vector && (u64) v.value.vector.offset < vlen) {
		n = vlen - (u64) v.value.vector.offset;
		for (k = 0; k < LEN; k++) if (k < n) {
			duckVM_object_t *el = sto[(u64) v.value.vector.offset + k];
			want[k] = (dl_uint8_t) el->value.integer;
			if (!is_int(el)) ok = 0;
		}
	}
	IN_SEL(str_fp[0], "t", 0, LEN);
	vm_before();
	result_is(vm_step(), ok, dist_ok(d1), n, want, w);
}
#else
/* H0..H3: arbitrary graph of pairs, boxed lists and values; the list's shape is what the walk of the first
 * LEN + 2 steps sees. */
static void mk(int opcode, int w) {
	duckVM_object_t v, *p;
	u64 d1, k, n = 0;
	dl_uint8_t want[NH + 1];
	int ok, end = 0;
	begin(opcode);
	IN_DIST(d1, "d1", 1, w);
#define HV(k) IN_OBJ(*heap_obj(k), "H" #k, duckVM_object_type_bool, duckVM_object_type_cons); \
	ASSUME(heap_obj(k)->type == duckVM_object_type_integer || heap_obj(k)->type == duckVM_object_type_cons || heap_obj(k)->type == duckVM_object_type_bool);
	HV(0) HV(1) HV(2)
	IN_OBJ(v, "V", duckVM_object_type_bool, duckVM_object_type_type);
	ASSUME(v.type != duckVM_object_type_vector);
	ASSUME(v.type != duckVM_object_type_list || !v.value.list || v.value.list->type == duckVM_object_type_cons);
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, v); }
	ok = dist_ok(d1) && v.type == duckVM_object_type_list;
	p = v.type == duckVM_object_type_list ? v.value.list : dl_null;
	/* more than NH pairs in a row: cyclic */
	for (k = 0; k <= NH && p; k++) {
		if (p->type != duckVM_object_type_cons || k == NH) { ok = 0; break; }
		if (!p->value.cons.car || !is_int(p->value.cons.car)) { ok = 0; break; }
		want[n++] = (dl_uint8_t) p->value.cons.car->value.integer;
		p = p->value.cons.cdr;
	}
	(void) end;
	IN_SEL(str_fp[0], "t", 0, NH);
	vm_before();
	result_is(vm_step(), ok, dist_ok(d1), n, want, w);
}
#endif
HARNESS(H_make8) { mk(duckLisp_instruction_makeString8, 1); }
HARNESS(H_make16) { mk(duckLisp_instruction_makeString16, 2); }
HARNESS(H_make32) { mk(duckLisp_instruction_makeString32, 4); }
