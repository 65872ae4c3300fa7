/* Contracts of the vector instructions on the interpreter's real instruction step.
 * In the verifier a pre-existing vector's storage ends right behind the one element the contract lets the
 * instruction touch (at an arbitrary position), so touching a later one, or the storage of an empty or exhausted
 * vector, is an out-of-bounds access; an arbitrary earlier one is compared afterwards.  Natively the storage is
 * complete and all its other elements are compared afterwards.
 */
#if !defined(BUILD) || defined(FIXED)
#define GCMODEL
#endif
#ifdef BUILD
/* elements of the vector under construction */
#define GC_CHILDREN case duckVM_object_type_internalVector: { \
	u64 j_; \
	if (o->value.internal_vector.initialized && o == new_obj(0)) \
		for (j_ = 0; j_ < BUILD; j_++) { \
			CHECK("the collector sees only valid elements", known_ptr(vbuf[j_])); \
			if (!keeps(vbuf[j_])) return 0; } \
	return 1; }
#define NN (BUILD + 2)
struct duckVM_object_s; static int known_ptr(struct duckVM_object_s *p);
#endif
#include "vm.h"
#if defined(BUILD) && !NATIVE
static int known_ptr(duckVM_object_t *p) {
	int k;
	if (!p) return 1;
	for (k = 0; k < NH; k++) if (p == heap_obj(k)) return 1;
	for (k = 0; k < NN; k++) if (p == new_obj(k)) return 1;
	return 0;
}
#endif

#ifdef FIXED
/* a fixed stack layout: this unit is about collections during the instruction; the other one about the layout */
#define DIST(d, id, pos, w, k) do { int k_; (d) = 2 + (k); for (k_ = 0; k_ < (w); k_++) bc[(pos) + k_] = 0; bc[(pos) + (w) - 1] = 2 + (k); } while (0)
static void begin(int opcode) { fixed_layout = 8; vm_setup(); bc[0] = (dl_uint8_t) opcode; }
#else
#define DIST(d, id, pos, w, k) IN_DIST(d, id, pos, w)
static void begin(int opcode) { vm_setup(); bc[0] = (dl_uint8_t) opcode; }
#endif
static int lost(int k) {
#if NATIVE
	(void) k;
	return native_unrooted;
#elif defined(GCMODEL)
	return dead_h[k];
#else
	(void) k;
	return 0;
#endif
}
static int is_candidate(duckVM_object_t *p) {
	int k;
#if NATIVE
	if (native_unrooted) return 0;
#endif
	for (k = 0; k < NH; k++) if (p == heap_obj(k)) return 1;
	return 0;
}
static int fresh_holding(duckVM_object_t *p, const duckVM_object_t *v) { return p && !is_candidate(p) && obj_eq(*p, *v); }

/* H0: the vector's storage, `len` elements; H1, H2: its elements, values of any type */
static u64 vlen;
static u64 nat_g;
#if !NATIVE
static duckVM_object_t **storage;   /* null unless an element may be touched */
static u64 ghost;
#endif
static void heap_vector(void) {
	IN_SEL(vlen, "vlen", 0, NATIVE ? 6 : SMALL_OR(6, 1UL << 40));
	IN_OBJ(*heap_obj(1), "H1", duckVM_object_type_bool, duckVM_object_type_user);
	IN_OBJ(*heap_obj(2), "H2", duckVM_object_type_bool, duckVM_object_type_user);
	heap_obj(0)->type = duckVM_object_type_internalVector;
	heap_obj(0)->value.internal_vector.values = dl_null;
	heap_obj(0)->value.internal_vector.initialized = dl_true;
	heap_obj(0)->value.internal_vector.length = vlen;
#if !NATIVE
	IN_SEL(ext_root[0], "H0.root", 0, 1); IN_SEL(ext_root[1], "H1.root", 0, 1); IN_SEL(ext_root[2], "H2.root", 0, 1);
#else
	{
		u64 j;
		duckVM_object_t **v = vlen ? malloc(vlen * sizeof *v) : dl_null;
		for (j = 0; j < vlen; j++) v[j] = heap_obj(2);
		heap_obj(0)->value.internal_vector.values = v;
	}
#endif
}
/* make element g the accessible one; it holds H1 */
static void window(u64 g) {
#if NATIVE
	nat_g = g;
	heap_obj(0)->value.internal_vector.values[g] = heap_obj(1);
#else
	storage = malloc(sizeof(duckVM_object_t *) * (g + 1));
	ghost = nondet_u64();
	if (ghost < g) storage[ghost] = heap_obj(2);
	storage[g] = heap_obj(1);
	heap_obj(0)->value.internal_vector.values = storage;
	nat_g = g;
#endif
}
static duckVM_object_t *element(u64 g) {
#if NATIVE
	return heap_obj(0)->value.internal_vector.values[g];
#else
	return storage[g];
#endif
}
static void frame_elements(void) {
#if NATIVE
	u64 j;
	if (!native_unrooted) for (j = 0; j < vlen && j < heap_obj(0)->value.internal_vector.length; j++)
		if (j != nat_g) CHECK("frame: other elements unchanged", heap_obj(0)->value.internal_vector.values[j] == heap_obj(2));
#else
	if (storage && ghost < nat_g) CHECK("frame: other elements unchanged", storage[ghost] == heap_obj(2));
#endif
}
static void frame_heap_from(int first) {
	int k;
	for (k = first; k < NH; k++)
		if (!lost(k)) CHECK("frame: other heap objects unchanged", obj_eq(*heap_obj(k), H_before[k]));
}
static int vec_ok(duckVM_object_t *o) {
	if (o->type == duckVM_object_type_vector && o->value.vector.internal_vector) {
#if NATIVE
		o->value.vector.offset %= 8;
#endif
		return o->value.vector.internal_vector == heap_obj(0);
	}
	return 1;
}
static int is_vec(const duckVM_object_t *o) { return o->type == duckVM_object_type_vector; }
static u64 off(const duckVM_object_t *o) { return (u64) o->value.vector.offset; }

/* get-vector-element (set=0), set-vector-element (set=1) */
static void elt(int set, int opcode, int w) {
	duckVM_object_t v, ix, x = {0};
	u64 d1, d2, d3 = 1, g = 0;
	i64 i;
	dl_error_t e;
	int stack_ok, ok;
	begin(opcode);
	heap_vector();
	IN_DIST(d1, "d1", 1, w); IN_DIST(d2, "d2", 1 + w, w);
	if (set) IN_DIST(d3, "d3", 1 + 2 * w, w);
	IN_VALUE(v, "V"); IN_VALUE(ix, "I");
	if (set) IN_VALUE(x, "X");
	ASSUME(vec_ok(&v) && vec_ok(&ix));
	if (set) ASSUME(vec_ok(&x));
	if (!set) ASSUME(v.type != duckVM_object_type_string && ix.type != duckVM_object_type_string);
	/* slots of the operands; the same slot may be named more than once */
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, v); }
	if (d2 == d1) ix = v;
	if (dist_ok(d2)) { FP[2] = n0 - d2; STK_set(n0 - d2, ix); }
	if (set) {
		if (d3 == d1) x = v; else if (d3 == d2) x = ix;
		if (dist_ok(d3)) { FP[3] = n0 - d3; STK_set(n0 - d3, x); }
	}
	stack_ok = dist_ok(d1) && dist_ok(d2) && (!set || dist_ok(d3));
	i = ix.value.integer;
	ok = stack_ok && is_vec(&v) && ix.type == duckVM_object_type_integer && v.value.vector.internal_vector
		&& i >= 0 && off(&v) < vlen && (u64) i < vlen - off(&v);
	if (ok) { g = off(&v) + (u64) i; window(g); }
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_rest(); frame_elements();
	if (ok) {
		CHECK("an index within the vector is accepted (unless out of memory)", !e || alloc_failed || NATIVE);
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			if (set) {
				CHECK("the element is replaced by the value, in a cell of its own", fresh_holding(element(g), &x));
				CHECK("the stored value is returned", obj_eq(r, x));
				frame_heap_from(1);
				CHECK("the vector keeps its length", heap_obj(0)->value.internal_vector.length == vlen);
			}
			else {
				CHECK("the addressed element is returned", obj_eq(r, *heap_obj(1)));
				CHECK("reading leaves the element in place", element(g) == heap_obj(1));
				frame_heap_from(0);
			}
			CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + (set ? 3 : 2) * w);
			REACH("success");
		}
		else CHECK("a failed access leaves the old or the new element in place", lost(0) || element(g) == heap_obj(1) || (set && fresh_holding(element(g), &x)));
	}
	else {
		CHECK("a wrong operand or an index outside the vector is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		frame_heap_from(0);
		REACH("error");
	}
}
/* car (0), cdr (1), length (2) */
static void view(int what, int opcode, int w) {
	duckVM_object_t v;
	u64 d1, left;
	dl_error_t e;
	begin(opcode);
	heap_vector();
	IN_DIST(d1, "d1", 1, w);
	IN_OBJ(v, "V", duckVM_object_type_vector, duckVM_object_type_vector);
	ASSUME(vec_ok(&v));
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, v); }
	left = v.value.vector.internal_vector && off(&v) < vlen ? vlen - off(&v) : 0;
	if (what == 0 && left) window(off(&v));
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_rest(); frame_heap_from(0); frame_elements();
	if (dist_ok(d1)) {
		CHECK("reading a vector succeeds (unless out of memory)", !e || alloc_failed);
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			if (what == 2) CHECK("length is the number of elements from the view's start", r.type == duckVM_object_type_integer && (u64) r.value.integer == left);
			else if (what == 0 && left) CHECK("car is the first element", obj_eq(r, *heap_obj(1)));
			else if (what == 1 && left > 1) CHECK("cdr is the view that starts one element later and shares the storage",
				is_vec(&r) && r.value.vector.internal_vector == v.value.vector.internal_vector && off(&r) == off(&v) + 1);
			else CHECK("past the end there is the empty vector", is_vec(&r) && !r.value.vector.internal_vector);
			CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
			REACH("success");
		}
	}
	else {
		CHECK("an operand outside the stack is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
/* set-car (0), set-cdr (1) of a vector */
static void set_view(int tail, int opcode, int w) {
	duckVM_object_t v, x;
	u64 d1, d2;
	dl_error_t e;
	int ok;
	begin(opcode);
	heap_vector();
	IN_DIST(d1, "d1", 1, w); IN_DIST(d2, "d2", 1 + w, w);
	IN_VALUE(x, "X"); IN_OBJ(v, "V", duckVM_object_type_vector, duckVM_object_type_vector);
	ASSUME(vec_ok(&v) && vec_ok(&x));
	if (d1 == d2) x = v;
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, x); }
	if (dist_ok(d2)) { FP[2] = n0 - d2; STK_set(n0 - d2, v); }
	ok = dist_ok(d1) && dist_ok(d2) && v.value.vector.internal_vector && off(&v) < vlen;
	if (tail) ok = ok && ((is_vec(&x) && !x.value.vector.internal_vector) || (x.type == duckVM_object_type_list && !x.value.list));
	if (!tail && ok) window(off(&v));
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_rest(); frame_elements();
	if (ok) {
		CHECK("writing to a vector succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
		if (!e) {
			pushed_one();
			frame_heap_from(1);
			CHECK("the vector is returned", obj_eq(STK_get(n0), v));
			if (tail) CHECK("the vector now ends right after the current element", heap_obj(0)->value.internal_vector.length == off(&v) + 1
				&& heap_obj(0)->value.internal_vector.values == H_before[0].value.internal_vector.values);
			else {
				CHECK("the first element is replaced by the value, in a cell of its own", fresh_holding(element(off(&v)), &x));
				CHECK("the vector keeps its length", heap_obj(0)->value.internal_vector.length == vlen);
			}
			CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 2 * w);
			REACH("success");
		}
	}
	else {
		CHECK("an empty vector, a wrong value or an operand outside the stack is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		frame_heap_from(0);
		REACH("error");
	}
}
#ifdef BUILD
/* The instruction builds a vector of BUILD elements (one compilation unit per length). */
static void check_built(u64 n, const duckVM_object_t *x, dl_bool_t shared) {
	duckVM_object_t r = STK_get(n0), *iv;
	CHECK("result is a vector that starts at its first element", is_vec(&r) && r.value.vector.internal_vector && r.value.vector.offset == 0);
	if (!is_vec(&r) || !r.value.vector.internal_vector) return;
	iv = r.value.vector.internal_vector;
	CHECK("the storage is fresh", iv->type == duckVM_object_type_internalVector && !is_candidate(iv));
	CHECK("the vector has exactly the requested length", iv->value.internal_vector.length == n);
	CHECK("the collector will see the elements", iv->value.internal_vector.initialized || n == 0);
	if (iv->value.internal_vector.length == n) {
#define EL(j) if (n > (j)) { \
		CHECK("every element is the given one", fresh_holding(iv->value.internal_vector.values[j], &x[shared ? 0 : (j)])); \
		CHECK("an element's cell is not the storage's", iv->value.internal_vector.values[j] != iv); }
		EL(0) EL(1) EL(2)
		if (!shared && n > 1) CHECK("elements have cells of their own", iv->value.internal_vector.values[0] != iv->value.internal_vector.values[1]
			&& (n < 3 || (iv->value.internal_vector.values[2] != iv->value.internal_vector.values[0] && iv->value.internal_vector.values[2] != iv->value.internal_vector.values[1])));
	}
}
static void heap_any(void) {
	IN_OBJ(*heap_obj(0), "H0", duckVM_object_type_bool, duckVM_object_type_user);
	IN_SEL(ext_root[0], "H0.root", 0, 1);
}
static void build(int opcode, int w) {
	duckVM_object_t x[3];
	u64 d[3], k;
	dl_error_t e;
	int ok = 1;
	begin(opcode);
	heap_any();
	/* the length operand is BUILD */
	for (k = 0; k < (u64) w; k++) bc[1 + k] = 0;
	bc[w] = BUILD;
	for (k = 0; k < BUILD; k++) {
		if (k == 0) { DIST(d[0], "d0", 1 + w, w, 0); IN_VALUE(x[0], "X0"); }
		if (k == 1) { DIST(d[1], "d1", 1 + 2 * w, w, 1); IN_VALUE(x[1], "X1"); if (d[1] == d[0]) x[1] = x[0]; }
		if (k == 2) { DIST(d[2], "d2", 1 + 3 * w, w, 2); IN_VALUE(x[2], "X2"); if (d[2] == d[0]) x[2] = x[0]; else if (d[2] == d[1]) x[2] = x[1]; }
		if (dist_ok(d[k])) { FP[1 + k] = n0 - d[k]; STK_set(n0 - d[k], x[k]); } else ok = 0;
	}
	vm_before();
	e = vm_step();
	frame_slots(); frame_rest(); frame_heap_from(0);
	if (ok) CHECK("building a vector succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
	else CHECK("an operand outside the stack is an error", e != dl_error_ok);
	if (!e) {
		frame_lockstep();
		pushed_one();
		check_built(BUILD, x, dl_false);
		CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + w + BUILD * w);
		REACH("success");
	}
}
static void make(int opcode, int w) {
	duckVM_object_t n, x;
	u64 d1, d2;
	dl_error_t e;
	int ok;
	begin(opcode);
	heap_any();
	DIST(d1, "d1", 1, w, 0); DIST(d2, "d2", 1 + w, w, 1);
	IN_VALUE(n, "N"); IN_VALUE(x, "X");
#if NATIVE
	if (n.type == duckVM_object_type_integer && n.value.integer > 1000 && n.value.integer < (1L << 58)) n.value.integer = 1;
#endif
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, n); }
	if (d1 == d2) x = n;
	if (dist_ok(d2)) { FP[2] = n0 - d2; STK_set(n0 - d2, x); }
	ok = dist_ok(d1) && dist_ok(d2) && n.type == duckVM_object_type_integer && n.value.integer >= 0;
	/* this unit covers length BUILD and every erroneous request */
	if (!NATIVE) ASSUME(!ok || n.value.integer == BUILD);
#if NATIVE
	if (ok && n.value.integer > 1000) { ok = 0; }
#endif
#if !NATIVE
	if (ok) { n = build_obj(duckVM_object_type_integer, BUILD, 0, 0, 0, 0, 0); STK_set(n0 - d1, n); }
#endif
	vm_before();
	e = vm_step();
	frame_slots(); frame_rest(); frame_heap_from(0);
	if (ok) {
		CHECK("making a vector succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
		if (!e) {
			frame_lockstep();
			pushed_one();
			check_built((u64) n.value.integer, &x, dl_true);
			CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 2 * w);
			REACH("success");
		}
	}
	else {
		CHECK("a wrong or negative length, or an operand outside the stack, is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
#endif
#define OPS(name, op, F, ...) \
	HARNESS(H_##name##8) { F(__VA_ARGS__ duckLisp_instruction_##op##8, 1); } \
	HARNESS(H_##name##16) { F(__VA_ARGS__ duckLisp_instruction_##op##16, 2); } \
	HARNESS(H_##name##32) { F(__VA_ARGS__ duckLisp_instruction_##op##32, 4); }
#define C_ ,
#ifdef BUILD
OPS(vector, vector, build, )
OPS(make, makeVector, make, )
#else
OPS(get, getVecElt, elt, 0 C_)
OPS(set, setVecElt, elt, 1 C_)
OPS(car, car, view, 0 C_)
OPS(cdr, cdr, view, 1 C_)
OPS(length, length, view, 2 C_)
OPS(setcar, setCar, set_view, 0 C_)
OPS(setcdr, setCdr, set_view, 1 C_)
#endif
