/* P10: captured variables.  A captured variable lives in a stack slot while its scope is live (upvalue cell of kind
 * stack_index, registered in the captured-variable stack at that slot) and in a heap cell afterwards (heap_object);
 * a closure made inside a closure refers to the enclosing closure's upvalue (heap_upvalue).
 * ACCESS: pushUpvalue/setUpvalue read and write exactly the variable.  RELEASE: scope exit.  UCOUNT: capture. */
#ifdef UCOUNT
#define GC_CHILDREN \
	case duckVM_object_type_upvalue: \
		if (o->value.upvalue.type == duckVM_upvalue_type_heap_object) return keeps(o->value.upvalue.value.heap_object); \
		if (o->value.upvalue.type == duckVM_upvalue_type_heap_upvalue) return keeps(o->value.upvalue.value.heap_upvalue); \
		return 1; \
	case duckVM_object_type_upvalueArray: { \
		u64 j_; \
		if (o == new_obj(0)) for (j_ = 0; j_ < UCOUNT; j_++) { \
			CHECK("the collector sees only valid captured variables", known_ptr(ubuf[j_])); \
			if (!keeps(ubuf[j_])) return 0; } \
		return 1; }
#define NN (UCOUNT + 2)
struct duckVM_object_s; static int known_ptr(struct duckVM_object_s *p);
#endif
#ifdef RELEASE
#define GC_CHILDREN \
	case duckVM_object_type_upvalue: \
		if (o->value.upvalue.type == duckVM_upvalue_type_heap_object) return keeps(o->value.upvalue.value.heap_object); \
		if (o->value.upvalue.type == duckVM_upvalue_type_heap_upvalue) return keeps(o->value.upvalue.value.heap_upvalue); \
		return 1;
#endif
#ifdef FIXED
#define GCMODEL
#endif
#include "vm.h"
#if defined(UCOUNT) && !NATIVE
static int known_ptr(duckVM_object_t *p) {
	int k;
	if (!p) return 1;
	for (k = 0; k < NH; k++) if (p == heap_obj(k)) return 1;
	for (k = 0; k < NN; k++) if (p == new_obj(k)) return 1;
	return 0;
}
#endif
#ifdef FIXED
#define DIST(d, id, pos, w, v) do { int k_; (d) = (v); for (k_ = 0; k_ < (w); k_++) bc[(pos) + k_] = 0; bc[(pos) + (w) - 1] = (v); } while (0)
static void begin(int opcode) { fixed_layout = 8; vm_setup(); bc[0] = (dl_uint8_t) opcode; }
#else
#define DIST(d, id, pos, w, v) IN_DIST(d, id, pos, w)
static void begin(int opcode) { vm_setup(); bc[0] = (dl_uint8_t) opcode; }
#endif
static int lost(int k) {
#if NATIVE
	(void) k;
	return native_unrooted;
#elif defined(GCMODEL)
	return dead_h[k];
#else
	(void) k;
	return 0;
#endif
}
static int is_candidate(duckVM_object_t *p) {
	int k;
#if NATIVE
	if (native_unrooted) return 0;
#endif
	for (k = 0; k < NH; k++) if (p == heap_obj(k)) return 1;
	return 0;
}
/* natively the real collector runs: values refer to nothing, or to H2 */
static duckVM_object_t nv(duckVM_object_t o) {
#if NATIVE
	if (o.type == duckVM_object_type_list && (void *) &o != (void *) heap_obj(2)) o.value.list = dl_null;
	else if (o.type > duckVM_object_type_float) { o.type = duckVM_object_type_integer; o.value.integer = 4711; }
#endif
	return o;
}
static int is_upvalue(duckVM_object_t *p) { return p && p->type == duckVM_object_type_upvalue; }
static u64 ulen, idx;
static duckVM_object_t **storage;
/* the executing closure's captured variables: only entry idx is accessible in the verifier, it holds u */
static void executing(duckVM_object_t *u) {
	duckVM_upvalueArray_t arr;
	arr.upvalues = dl_null;
	arr.length = ulen;
	if (idx < ulen) {
#if NATIVE
		{ u64 j, m = ulen < 64 ? ulen : idx + 1; storage = malloc(m * sizeof *storage); for (j = 0; j < m; j++) storage[j] = dl_null; }
#else
		storage = malloc(sizeof(duckVM_object_t *) * (idx + 1));
#endif
		storage[idx] = u;
		arr.upvalues = storage;
	}
	*UPCALLS(c0) = arr;
}
static duckVM_object_t stack_upvalue(u64 slot) {
	duckVM_object_t o = {0};
	o.type = duckVM_object_type_upvalue;
	o.value.upvalue.type = duckVM_upvalue_type_stack_index;
	o.value.upvalue.value.stack_index = (dl_ptrdiff_t) slot;
	return o;
}
static duckVM_object_t link_upvalue(int kind, duckVM_object_t *p) {
	duckVM_object_t o = {0};
	o.type = duckVM_object_type_upvalue;
	o.value.upvalue.type = kind;
	if (kind == duckVM_upvalue_type_heap_object) o.value.upvalue.value.heap_object = p;
	else o.value.upvalue.value.heap_upvalue = p;
	return o;
}

#ifdef ACCESS
/* H0 is the closure's entry; LINKS links (H0 -> H1 -> ...) lead to the upvalue that locates the variable:
 * stack slot s or the heap cell H3 */
static u64 slot, in_heap, valid_entry;
static void variable(void) {
	int k;
	duckVM_object_t v, loc;
	IN_SEL(in_heap, "inheap", 0, 1);
	IN_SEL(slot, "slot", 0, NATIVE ? n0 + 2 : N_MAX);
	IN_VALUE(*heap_obj(3), "BOX");
	IN_VALUE(v, "V");
	if (!in_heap && slot < n0) STK_set(slot, v);
	loc = in_heap ? link_upvalue(duckVM_upvalue_type_heap_object, heap_obj(3)) : stack_upvalue(slot);
	for (k = 0; k < LINKS; k++) *heap_obj(k) = link_upvalue(duckVM_upvalue_type_heap_upvalue, heap_obj(k + 1));
	*heap_obj(LINKS) = loc;
}
static void entry(u64 i) {
	IN_USUAL(ulen, "ulen", 0, 6, SMALL_OR(6, 1UL << 40));
	IN_SEL(valid_entry, "entry", 0, 2);
	idx = i;
	if (valid_entry == 2) { heap_obj(0)->type = duckVM_object_type_cons; heap_obj(0)->value.cons.car = dl_null; heap_obj(0)->value.cons.cdr = dl_null; }
	executing(valid_entry ? heap_obj(0) : dl_null);
}
static void push_upvalue(int opcode, int w) {
	u64 i;
	dl_error_t e;
	int ok;
	begin(opcode);
	IN_DIST(i, "index", 1, w);
	FP[1] = ~0UL;
	{ u64 s; IN_SEL(s, "slot", 0, NATIVE ? n0 + 2 : N_MAX); if (s < n0) FP[1] = s; }
	variable();
	ASSUME(NATIVE || slot >= n0 ? 1 : FP[1] == slot);
	entry(i);
	ok = i < ulen && valid_entry == 1 && (in_heap || slot < n0);
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap(0); frame_rest();
	if (ok) {
		CHECK("reading a captured variable succeeds (unless out of memory)", !e || alloc_failed);
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			CHECK("the value pushed is the variable's current value", obj_eq(r, in_heap ? *heap_obj(3) : STK_get(slot)));
			CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
			REACH("success");
		}
	}
	else {
		CHECK("an index or variable that does not exist is an error", e != dl_error_ok);
		CHECK("and pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
static void set_upvalue(int opcode, int w) {
	u64 i, d;
	duckVM_object_t a;
	dl_error_t e;
	int ok, k;
	begin(opcode);
	IN_DIST(i, "index", 1, 1);
	IN_DIST(d, "d", 2, w);
	{ u64 s; IN_SEL(s, "slot", 0, NATIVE ? n0 + 2 : N_MAX); if (s < n0) FP[1] = s; }
	if (dist_ok(d)) FP[2] = n0 - d;
	variable();
	ASSUME(NATIVE || slot >= n0 ? 1 : FP[1] == slot);
	IN_VALUE(a, "A");
	if (dist_ok(d)) STK_set(n0 - d, a);
	entry(i);
	ok = i < ulen && valid_entry == 1 && (in_heap || slot < n0) && dist_ok(d);
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_rest();
	CHECK("writing a captured variable keeps the stack depth", vm.stack.elements_length == n0);
	if (ok && !in_heap) frame_slots_except(slot); else frame_slots();
	for (k = 0; k < NH; k++)
		if (!(ok && in_heap && k == 3) && !lost(k)) CHECK("frame: other heap objects unchanged", obj_eq(*heap_obj(k), H_before[k]));
	if (ok) {
		CHECK("writing a captured variable succeeds", !e);
		CHECK("the variable has the value written", obj_eq(in_heap ? *heap_obj(3) : STK_get(slot), a));
		CHECK("instruction pointer advances past the operands", ip_after == bc + 2 + w);
		REACH("success");
	}
	else {
		CHECK("an index, variable or operand that does not exist is an error", e != dl_error_ok);
		REACH("error");
	}
}
#define W3(NAME, OP, FN) \
	HARNESS(H_##NAME##8) { FN(duckLisp_instruction_##OP##8, 1); } \
	HARNESS(H_##NAME##16) { FN(duckLisp_instruction_##OP##16, 2); } \
	HARNESS(H_##NAME##32) { FN(duckLisp_instruction_##OP##32, 4); }
W3(pushup, pushUpvalue, push_upvalue)
W3(setup, setUpvalue, set_upvalue)
#endif

#ifdef RELEASE
/* RELEASE slots leave scope; each is captured (H0, H1) or not */
static void release(int opcode, int w) {
	u64 d[2], s[2], cap[2], same;
	duckVM_object_t v[2], old;
	dl_error_t e;
	int k, ok = 1;
	begin(opcode);
	bc[1] = RELEASE;
	DIST(d[0], "d0", 2, w, 3);
	if (RELEASE > 1) DIST(d[1], "d1", 2 + w, w, 5);
	for (k = 0; k < RELEASE; k++) {
		if (!dist_ok(d[k])) ok = 0;
		s[k] = n0 - d[k];
		if (dist_ok(d[k])) FP[1 + k] = s[k];
	}
	same = RELEASE > 1 && d[0] == d[RELEASE - 1];
	IN_SEL(cap[0], "cap0", 0, 1);
	if (RELEASE > 1) IN_SEL(cap[RELEASE - 1], "cap1", 0, 1);
	IN_VALUE(v[0], "V0");
	if (RELEASE > 1) IN_VALUE(v[RELEASE - 1], "V1");
	v[0] = nv(v[0]); v[RELEASE - 1] = nv(v[RELEASE - 1]);
	if (same) { cap[RELEASE - 1] = cap[0]; v[RELEASE - 1] = v[0]; }
	IN_VALUE(*heap_obj(2), "H2");
	*heap_obj(2) = nv(*heap_obj(2));
#if !NATIVE
	IN_SEL(ext_root[0], "H0.root", 0, 1); IN_SEL(ext_root[1], "H1.root", 0, 1); IN_SEL(ext_root[2], "H2.root", 0, 1);
#endif
	*heap_obj(0) = stack_upvalue(s[0]);
	*heap_obj(1) = stack_upvalue(s[RELEASE - 1]);
	for (k = 0; k < RELEASE; k++) if (dist_ok(d[k])) {
		STK_set(s[k], v[k]);
		UPS_set(s[k], cap[k] ? heap_obj(same ? 0 : k) : dl_null);
	}
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_rest();
	CHECK("leaving a scope keeps the stack depth", vm.stack.elements_length == n0);
	if (gi < n0 && !(dist_ok(d[0]) && gi == s[0]) && !(dist_ok(d[RELEASE - 1]) && gi == s[RELEASE - 1])) frame_slots();
	if (!lost(2)) CHECK("frame: other heap objects unchanged", obj_eq(*heap_obj(2), H_before[2]));
	if (ok) {
		CHECK("leaving a scope succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
		if (!e) {
			for (k = 0; k < RELEASE; k++) {
				duckVM_object_t *u;
				if (k == 1 && same) continue;
				u = heap_obj(k);
				if (!cap[k]) {
					CHECK("a variable that no closure captured stays as it is", obj_eq(STK_get(s[k]), v[k]) && UPS_get(s[k]) == dl_null);
					if (!lost(k)) CHECK("frame: other heap objects unchanged", obj_eq(*u, H_before[k]));
				}
				else {
					duckVM_object_t st = STK_get(s[k]);
					CHECK("the slot no longer is the captured variable", UPS_get(s[k]) == dl_null && st.type == duckVM_object_type_list && !st.value.list);
					if (!lost(k)) {
						CHECK("the variable moves to the heap", is_upvalue(u) && u->value.upvalue.type == duckVM_upvalue_type_heap_object);
						CHECK("to a cell of its own", u->value.upvalue.value.heap_object && !is_candidate(u->value.upvalue.value.heap_object));
						old = *u->value.upvalue.value.heap_object;
						CHECK("with its last value", obj_eq(old, v[k]));
					}
				}
			}
#if RELEASE > 1
			if (cap[0] && cap[1] && !same && !lost(0) && !lost(1))
				CHECK("different variables get different cells", heap_obj(0)->value.upvalue.value.heap_object != heap_obj(1)->value.upvalue.value.heap_object);
#endif
			CHECK("instruction pointer advances past the operands", ip_after == bc + 2 + RELEASE * w);
			REACH("success");
		}
	}
	else {
		CHECK("an operand outside the stack is an error", e != dl_error_ok);
		REACH("error");
	}
}
HARNESS(H_release8) { release(duckLisp_instruction_releaseUpvalues8, 1); }
HARNESS(H_release16) { release(duckLisp_instruction_releaseUpvalues16, 2); }
HARNESS(H_release32) { release(duckLisp_instruction_releaseUpvalues32, 4); }
#endif

#ifdef UCOUNT
/* pushClosure with UCOUNT captured variables.  H0: upvalue of the executing closure at entry idx; H1: upvalue already
 * registered at one stack slot (os); every capture operand is arbitrary */
static u64 os;
static void put4(int pos, u64 v) { bc[pos] = v >> 24 & 255; bc[pos + 1] = v >> 16 & 255; bc[pos + 2] = v >> 8 & 255; bc[pos + 3] = v & 255; }
static void push_closure(int opcode, int w, int variadic) {
	u64 o, ar, cap[2] = {0, 0}, s[2] = {0, 0}, kind[2] = {0, 0}, i;
	int k, ok = 1, base = 1 + w + 5;
	dl_error_t e;
	begin(opcode);
	IN_SEL(o, "offset", 0, (1UL << (8 * w)) - 1);
	for (k = 0; k < w; k++) bc[1 + k] = o >> (8 * (w - 1 - k)) & 255;
	IN_SEL(ar, "arity", 0, 255);
	bc[1 + w] = ar;
	put4(2 + w, UCOUNT);
	IN_USUAL(ulen, "ulen", 0, 4, SMALL_OR(4, 1UL << 40));
	IN_SEL(idx, "idx", 0, NATIVE ? 6 : 0x7fffffffUL);
	IN_SEL(os, "os", 0, N_MAX);
#if UCOUNT > 0
	for (k = 0; k < UCOUNT; k++) {
#if NATIVE
		char id[8]; sprintf(id, "cap%d", k);
		cap[k] = rt_usual(id, 0, 6, 0xffffffffUL);
		sprintf(id, "nest%d", k);
		if (rt_in(id, 0, 2) == 0) cap[k] = 0xffffffffUL - idx;
		if (k && rt_in("same", 0, 2) == 0) cap[k] = cap[0];
		if (os > n0 + 3) os = n0 - 1;
#elif defined(FIXED)
		/* kinds: enclosing closure's variable, the closure itself, the slot with a variable, two other slots */
		u64 c; IN_SEL(c, "cap", 0, 4);
		cap[k] = c == 4 ? 0xffffffffUL - idx : c;
#else
		IN_SEL(cap[k], "cap", 0, 0xffffffffUL);
#endif
	}
	for (k = 0; k < UCOUNT; k++) put4(base + 4 * k, cap[k]);
#endif
#ifdef FIXED
	os = n0 - 2;
	ASSUME(idx < 4);
#endif
	for (k = 0; k < UCOUNT; k++) {
		if (cap[k] > 0x7fffffffUL) { kind[k] = 0; i = 0xffffffffUL - cap[k]; ASSUME(i == idx || NATIVE); if (i >= ulen) ok = 0; if (NATIVE && i != idx) ASSUME(0); }
		else if (cap[k] == 0) kind[k] = 1;
		else { kind[k] = 2; s[k] = n0 - cap[k]; if (cap[k] > n0) ok = 0; else { FP[1 + k] = s[k]; } }
	}
	*heap_obj(0) = stack_upvalue(7);
	*heap_obj(1) = stack_upvalue(os);
	IN_VALUE(*heap_obj(2), "H2");
	*heap_obj(2) = nv(*heap_obj(2));
#if !NATIVE
	for (k = 0; k < NH; k++) ext_root[k] = 1;   /* the executing closure and what it refers to are on the stack */
	/* slots: empty, or captured earlier (at most the slot os) */
	for (k = 0; k < UCOUNT; k++) if (kind[k] == 2 && cap[k] <= n0) UPS_set(s[k], s[k] == os ? heap_obj(1) : dl_null);
#else
	if (os < n0) UPS_set(os, heap_obj(1));
	if (native_unrooted) ASSUME(0);
	if (vm.gclist.freeObjects_length < 6) ASSUME(0);   /* the executing bytecode is no heap cell natively: no collection */
#endif
	executing(heap_obj(0));
	vm_before();
	e = vm_step();
	frame_heap(0); frame_rest();
	if (gi < n0 && !(UCOUNT > 0 && kind[0] == 2 && gi == s[0]) && !(UCOUNT > 1 && kind[1] == 2 && gi == s[1])) frame_slots();
	if (ok) {
		CHECK("making a closure succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
		if (!e) {
			duckVM_object_t r, *a, **u;
			i64 off = operand_signed(1, w);
			int self = 0;
			CHECK("exactly one value pushed", vm.stack.elements_length == n0 + 1);
			CHECK("captured-variable stack grows with it", vm.upvalue_stack.elements_length == n0 + 1);
			r = STK_get(n0);
			CHECK("the value is a closure over the executing code", r.type == duckVM_object_type_closure && r.value.closure.bytecode == &bc_object);
			CHECK("its code starts at the signed offset", r.value.closure.name == 1 + w + off);
			CHECK("its arity is the encoded one", r.value.closure.arity == ar && r.value.closure.variadic == variadic);
			CHECK("instruction pointer advances past the operands", ip_after == bc + base + 4 * UCOUNT);
			a = r.value.closure.upvalue_array;
			CHECK("its list of captured variables is its own", a && !is_candidate(a) && a->type == duckVM_object_type_upvalueArray && a->value.upvalue_array.length == UCOUNT);
#if UCOUNT > 0
#if NATIVE
			u = a->value.upvalue_array.upvalues;
#else
			u = ubuf;
			CHECK("the list is stored in its own buffer", a->value.upvalue_array.upvalues == ubuf);
#endif
			for (k = 0; k < UCOUNT; k++) {
				CHECK("every captured variable is present", is_upvalue(u[k]));
				if (kind[k] == 0) {
					CHECK("a variable of the enclosing closure is linked", u[k]->value.upvalue.type == duckVM_upvalue_type_heap_upvalue
						&& u[k]->value.upvalue.value.heap_upvalue == heap_obj(0));
					CHECK("through a cell of its own", !is_candidate(u[k]));
				}
				else {
					u64 at = kind[k] == 1 ? n0 : s[k];
					if (kind[k] == 1) self = 1;
					CHECK("a stack variable is located at its slot", u[k]->value.upvalue.type == duckVM_upvalue_type_stack_index
						&& u[k]->value.upvalue.value.stack_index == (dl_ptrdiff_t) at);
					CHECK("and registered there, so that every later closure shares it", UPS_get(at) == u[k]);
					if (kind[k] == 2) CHECK("a variable captured before is shared", s[k] == os ? u[k] == heap_obj(1) : !is_candidate(u[k]));
				}
			}
			if (UCOUNT > 1 && cap[0] == cap[1] && kind[0]) CHECK("capturing a variable twice shares it", u[0] == u[UCOUNT - 1]);
			if (UCOUNT > 1 && cap[0] != cap[1]) CHECK("different variables stay different", u[0] != u[UCOUNT - 1]);
#else
			(void) u;
#endif
			if (!self) CHECK("new slot is not captured", UPS_get(n0) == dl_null);
			for (k = 0; k < UCOUNT; k++) if (kind[k] == 2) { CHECK("captured slots keep their value", 1); }
			REACH("success");
		}
	}
	else {
		CHECK("a variable that does not exist is an error", e != dl_error_ok);
		REACH("error");
	}
}
HARNESS(H_closure8) { push_closure(duckLisp_instruction_pushClosure8, 1, 0); }
HARNESS(H_closure16) { push_closure(duckLisp_instruction_pushClosure16, 2, 0); }
HARNESS(H_closure32) { push_closure(duckLisp_instruction_pushClosure32, 4, 0); }
HARNESS(H_vaclosure8) { push_closure(duckLisp_instruction_pushVaClosure8, 1, 1); }
HARNESS(H_vaclosure16) { push_closure(duckLisp_instruction_pushVaClosure16, 2, 1); }
HARNESS(H_vaclosure32) { push_closure(duckLisp_instruction_pushVaClosure32, 4, 1); }
#endif
