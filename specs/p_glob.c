/* P11: the table of globals against a map from keys to cells, and the instructions that use it.
 * GLOBMAP: duckVM_global_get/duckVM_global_set on tables of any size (loop rule in vm.h);
 * otherwise pushGlobal/setGlobal with these two used through their contracts. */
#include "vm.h"
#if NATIVE
#define NATIVE_UNROOTED native_unrooted
#else
#define NATIVE_UNROOTED 0
#endif
#if NATIVE
#define KEYS(i) (((dl_ptrdiff_t *) vm.globals_map.elements)[i])
#define VALS(i) (((duckVM_object_t **) vm.globals.elements)[i])
static duckVM_object_t *lookup(dl_ptrdiff_t key) {
	u64 i;
	for (i = 0; i < vm.globals_map.elements_length; i++) if (KEYS(i) == key) return VALS(i);
	return dl_null;
}
#endif
#ifdef GLOBMAP
#if NATIVE
static u64 len0, hit;
static dl_ptrdiff_t the_key;
static duckVM_object_t *vals0[64];
static dl_ptrdiff_t keys0[64];
static void setup(void) {
	u64 i;
	vm_setup();
	vm.globals.elements_length = vm.globals_map.elements_length = 0;
	IN_SEL(len0, "entries", 0, 8);
	IN_SEL(hit, "hit", 0, 9);
	IN_U(the_key, "key");
	for (i = 0; i < len0; i++) {
		duckVM_object_t *v = HP_[i % NH];
		dl_ptrdiff_t k = i == hit ? the_key : the_key ^ (dl_ptrdiff_t) (1UL << (7 * i + 1));
		dl_array_pushElement(&vm.globals, &v);
		dl_array_pushElement(&vm.globals_map, &k);
		keys0[i] = k; vals0[i] = v;
	}
	if (hit >= len0) hit = ~0UL;
}
static void others(void) {
	u64 i;
	for (i = 0; i < len0; i++) {
		CHECK("other entries keep their key", KEYS(i) == keys0[i]);
		if (i != hit) CHECK("other entries keep their value", VALS(i) == vals0[i]);
	}
}
#define GKEY_get KEYS
#define GVAL_get VALS
#else
static u64 len0, hit, other;
static objptr_t oval0;
static globkey_t okey0;
static dl_ptrdiff_t cut_begin(u64 top) {
	u64 i = nondet_u64();
	ASSUME(i <= top && (hit == ~0UL || hit >= i));
	return (dl_ptrdiff_t) i;
}
static int cut_more(u64 i, u64 top) { return i < top; }
static void others(void) {
	if (other < len0 && other != hit) {
		CHECK("other entries keep their key", GKEY_get(other) == okey0);
		CHECK("other entries keep their value", GVAL_get(other) == oval0);
	}
	if (hit != ~0UL) CHECK("the entry keeps its key", GKEY_get(hit) == the_key);
}
static dl_ptrdiff_t cut_next(u64 i, u64 top) {
	CHECK("scan: no entry that was passed has the key", i != hit);
	CHECK("scan: the table is not changed while scanning", vm.globals.elements_length == len0 && vm.globals_map.elements_length == len0);
	others();
	(void) top;
	ASSUME(0);
	return 0;
}
static void setup(void) {
	vm_setup();
	IN_SEL(len0, "entries", 0, 1UL << 40);
	vm.globals.elements_length = vm.globals_map.elements_length = len0;
	the_key = (dl_ptrdiff_t) nondet_u64();
	hit = nondet_u64();
	ASSUME(hit < len0 || hit == ~0UL);
	other = nondet_u64();
	ASSUME(other < len0 ? other != hit : other == ~0UL - 1);
	GFP[0] = hit; GFP[1] = other; GFP[2] = len0;
	KCELL0 = the_key;
	KCELL1 = okey0 = nondet_otherkey();
	VCELL0 = nondet_objptr(); VCELL1 = oval0 = nondet_objptr();
}
#endif
HARNESS(H_get) {
	duckVM_object_t *out, *was;
	dl_error_t e;
	setup();
	out = was = heap_obj(0);
	e = duckVM_global_get(&vm, &out, the_key);
	others();
	CHECK("reading does not change the table", vm.globals.elements_length == len0 && vm.globals_map.elements_length == len0);
	if (hit == ~0UL) { REACH("absent"); CHECK("reading a key never stored is an error", e == dl_error_invalidValue); CHECK("and yields nothing", out == was); }
	else { REACH("present"); CHECK("reading a stored key succeeds", e == dl_error_ok); CHECK("and yields the cell stored last", out == GVAL_get(hit)); }
}
HARNESS(H_set) {
	duckVM_object_t *v;
	dl_error_t e;
	setup();
	v = heap_obj(1);
	e = duckVM_global_set(&vm, v, the_key);
	others();
	if (hit != ~0UL) {
		REACH("replaced");
		CHECK("replacing a stored key succeeds", e == dl_error_ok);
		CHECK("the table keeps its size", vm.globals.elements_length == len0 && vm.globals_map.elements_length == len0);
		CHECK("the entry has the new cell", GVAL_get(hit) == v);
	}
	else if (!e) {
		REACH("added");
		CHECK("a new key adds one entry", vm.globals.elements_length == len0 + 1 && vm.globals_map.elements_length == len0 + 1);
		CHECK("the new entry has the key and the cell", GKEY_get(len0) == the_key && GVAL_get(len0) == v);
	}
	else {
#if !NATIVE
		REACH("failure");
#endif
		CHECK("adding fails only for lack of memory", alloc_failed);
		CHECK("a failed definition leaves no half entry", vm.globals.elements_length == len0 && vm.globals_map.elements_length == len0);
	}
}
#else
static int global_known;
static duckVM_object_t *set_value;
static dl_ptrdiff_t set_key, get_key;
static int sets;
#if !NATIVE
dl_error_t c_global_get(const duckVM_t *v, duckVM_object_t **out, const dl_ptrdiff_t key) {
	(void) v;
	get_key = key;
	if (!global_known) return dl_error_invalidValue;
	*out = heap_obj(1);
	return dl_error_ok;
}
dl_error_t c_global_set(duckVM_t *v, duckVM_object_t *value, dl_ptrdiff_t key) {
	(void) v;
	sets++;
	if (nondet_u64() & 1) return nd_error();
	set_value = value; set_key = key;
	return dl_error_ok;
}
#endif
static void push_global(int opcode, int w) {
	u64 key;
	dl_error_t e;
	vm_setup();
	bc[0] = (dl_uint8_t) opcode;
	IN_DIST(key, "key", 1, w);
	IN_VALUE(*heap_obj(1), "G");
	IN_SEL(global_known, "known", 0, 1);
#if NATIVE
	if (global_known) duckVM_global_set(&vm, heap_obj(1), (dl_ptrdiff_t) key);
	else global_known = lookup((dl_ptrdiff_t) key) != dl_null;
	ASSUME(!global_known || lookup((dl_ptrdiff_t) key) == heap_obj(1));
#endif
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap(0); frame_rest();
	CHECK("the key looked up is the big-endian operand", NATIVE || get_key == (dl_ptrdiff_t) key);
	if (global_known) {
		CHECK("reading a stored global succeeds (unless out of memory)", !e || alloc_failed);
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			CHECK("the value pushed is the one stored", obj_eq(r, *heap_obj(1)));
			CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
			REACH("success");
		}
	}
	else {
		CHECK("reading a global never stored is an error", e != dl_error_ok);
		CHECK("and pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
static void set_global(int opcode, int w) {
	u64 key, d;
	duckVM_object_t a;
	dl_error_t e;
	vm_setup();
	bc[0] = (dl_uint8_t) opcode;
	IN_DIST(d, "d1", 1, w);
	IN_DIST(key, "key", 1 + w, w);
	IN_VALUE(a, "A");
	if (dist_ok(d)) { FP[1] = n0 - d; STK_set(n0 - d, a); }
#if NATIVE
	if (rt_in("pre", 0, 1)) duckVM_global_set(&vm, heap_obj(1), (dl_ptrdiff_t) key);
#endif
	vm_before();
#if NATIVE
	if (!lookup((dl_ptrdiff_t) key)) globals_len0++;
	if (!dist_ok(d)) globals_len0 = vm.globals.elements_length;
#endif
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap(0);
#if !NATIVE
	frame_rest();
#endif
	CHECK("writing a global leaves the stack alone", vm.stack.elements_length == n0);
	if (dist_ok(d)) {
		CHECK("writing a global succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
		if (!e) {
			duckVM_object_t *cell;
#if NATIVE
			cell = lookup((dl_ptrdiff_t) key);
#else
			CHECK("exactly one entry is written, under the big-endian operand", sets == 1 && set_key == (dl_ptrdiff_t) key);
			cell = set_value;
#endif
			CHECK("it gets a cell of its own", cell != dl_null && (NATIVE_UNROOTED || (cell != heap_obj(0) && cell != heap_obj(1) && cell != heap_obj(2))));
			if (cell) CHECK("holding the value written", obj_eq(*cell, a));
			CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 2 * w);
			REACH("success");
		}
		else CHECK("a failed write defines nothing", set_value == dl_null);
	}
	else {
		CHECK("an operand outside the stack is an error", e != dl_error_ok);
		CHECK("and defines nothing", NATIVE || sets == 0);
		REACH("error");
	}
}
#define W3(NAME, OP, FN) \
	HARNESS(H_##NAME##8) { FN(duckLisp_instruction_##OP##8, 1); } \
	HARNESS(H_##NAME##16) { FN(duckLisp_instruction_##OP##16, 2); } \
	HARNESS(H_##NAME##32) { FN(duckLisp_instruction_##OP##32, 4); }
W3(read, pushGlobal, push_global)
W3(write, setGlobal, set_global)
#endif
