/* P12: the collector.  MARK: duckVM_gclist_markObject (worklist of any length: the loop is cut at its pop, Floyd style).
 * COLLECT: duckVM_gclist_garbageCollect with the marking used through its contract.  ALLOC: duckVM_gclist_pushObject with
 * the collection used through its contract; this is the contract every instruction's check relies on.
 * The heap has N cells (what is proved relates a cell, a cell that refers to it and the cell being traced). */
#define N 4
#ifdef __CPROVER__
#define GLOBSEQ
#define GC_HOOKS
#define nondet_object gc_nd_object
#define nondet_objptr gc_nd_objptr
#define nondet_frame gc_nd_frame
#include "DuckLib/array.h"
struct duckVM_object_s;
dl_error_t work_push(dl_array_t *a, void *el);
dl_error_t work_pop(dl_array_t *a, void *el);
dl_error_t gc_malloc(void **p, dl_size_t size);
dl_error_t gc_free(void **p);
#endif
#define NH 0
#include "vm.h"
#undef nondet_object
#undef nondet_objptr
#undef nondet_frame

#if NATIVE
static duckVM_object_t *heap;
static dl_bool_t *inuse;
static duckVM_object_t **freelist;
#define CELL(k) (&heap[k])
#else
static duckVM_object_t heap[N];
static dl_bool_t inuse[N];
static duckVM_object_t *freelist[N];
#define CELL(k) ((k) == 0 ? &heap[0] : (k) == 1 ? &heap[1] : (k) == 2 ? &heap[2] : (k) == 3 ? &heap[3] : (duckVM_object_t *) 0)
#endif
static duckVM_object_t before[N];
static u64 ch[N][2];          /* what cell k refers to: cell numbers, N is nothing */
static dl_bool_t R[N + 1];    /* any set of cells closed under references */
static duckVM_object_t **kids[N];
static u64 destroyed[N], freed[N], dead_user[N];
static dl_uint8_t dummy[1];
#if NATIVE
static duckVM_object_t *cellp(u64 k) { return k < N ? &heap[k] : dl_null; }
#else
static duckVM_object_t *cellp(u64 k) { return CELL(k); }
#endif
static u64 cellno(duckVM_object_t *p) {
	u64 k;
	if (!p) return N;
	for (k = 0; k < N; k++) if (p == CELL(k)) return k;
	return N + 1;
}
static dl_error_t marker(duckVM_gclist_t *g, dl_array_t *dispatch, duckVM_object_t *o) {
	duckVM_object_t *p = (duckVM_object_t *) o->value.user.data;
	(void) g;
	return dl_array_pushElement(dispatch, &p);
}
static dl_error_t destructor(duckVM_gclist_t *g, duckVM_object_t *o) {
	u64 k = cellno(o);
	(void) g;
	if (k < N) destroyed[k]++;
	return dl_error_ok;
}
/* an object of type t that refers to the cells p and q; c0, c1: what it refers to */
static duckVM_object_t make(u64 t, u64 num, u64 p, u64 q, duckVM_object_t **buf, u64 *c0, u64 *c1) {
	duckVM_object_t o = {0};
	o.type = (duckVM_object_type_t) t;
	*c0 = *c1 = N;
	switch (t) {
	case duckVM_object_type_bool: o.value.boolean = num & 1; break;
	case duckVM_object_type_integer: o.value.integer = (dl_ptrdiff_t) num; break;
	case duckVM_object_type_float: o.value.floatingPoint = 1.5; break;
	case duckVM_object_type_string: o.value.string.internalString = cellp(p); *c0 = p; break;
	case duckVM_object_type_list: o.value.list = cellp(p); *c0 = p; break;
	case duckVM_object_type_symbol: o.value.symbol.id = num; o.value.symbol.internalString = cellp(p); *c0 = p; break;
	case duckVM_object_type_function: o.value.function.callback = callback_stub; break;
	case duckVM_object_type_closure: o.value.closure.name = num; o.value.closure.bytecode = cellp(p); o.value.closure.upvalue_array = cellp(q); *c0 = p; *c1 = q; break;
	case duckVM_object_type_vector: o.value.vector.internal_vector = cellp(p); o.value.vector.offset = num; *c0 = p; break;
	case duckVM_object_type_type: o.value.type = num; break;
	case duckVM_object_type_composite: o.value.composite = cellp(p); *c0 = p; break;
	case duckVM_object_type_user:
		o.value.user.data = cellp(p);
		if (num & 1) { o.value.user.marker = marker; *c0 = p; }
		if (num & 2) o.value.user.destructor = destructor;
		break;
	case duckVM_object_type_cons: o.value.cons.car = cellp(p); o.value.cons.cdr = cellp(q); *c0 = p; *c1 = q; break;
	case duckVM_object_type_upvalue:
		if (num % 3 == 0) { o.value.upvalue.type = duckVM_upvalue_type_stack_index; o.value.upvalue.value.stack_index = 5; }
		else if (num % 3 == 1) { o.value.upvalue.type = duckVM_upvalue_type_heap_object; o.value.upvalue.value.heap_object = cellp(p); *c0 = p; }
		else { o.value.upvalue.type = duckVM_upvalue_type_heap_upvalue; o.value.upvalue.value.heap_upvalue = cellp(p); *c0 = p; }
		break;
	case duckVM_object_type_upvalueArray:
		o.value.upvalue_array.length = num % 3;
		if (num % 3) o.value.upvalue_array.upvalues = buf;
		if (num % 3 > 0) { buf[0] = cellp(p); *c0 = p; }
		if (num % 3 > 1) { buf[1] = cellp(q); *c1 = q; }
		break;
	case duckVM_object_type_internalVector:
		o.value.internal_vector.length = num % 3;
		o.value.internal_vector.initialized = (num & 4) != 0;
		if (num % 3) o.value.internal_vector.values = buf;
		if (num % 3 > 0) { buf[0] = cellp(p); if (num & 4) *c0 = p; }
		if (num % 3 > 1) { buf[1] = cellp(q); if (num & 4) *c1 = q; }
		break;
	case duckVM_object_type_bytecode: o.value.bytecode.bytecode = (dl_uint8_t *) buf; o.value.bytecode.bytecode_length = 1; break;
	case duckVM_object_type_internalComposite: o.value.internalComposite.type = num; o.value.internalComposite.value = cellp(p); o.value.internalComposite.function = cellp(q); *c0 = p; *c1 = q; break;
	case duckVM_object_type_internalString: o.value.internalString.value = (dl_uint8_t *) buf; o.value.internalString.value_length = 1; break;
	default: break;
	}
	return o;
}
#if NATIVE
#define NAME(s, k) (sprintf(name_, s "%d", (int) (k)), name_)
static char name_[32];
#define NSEL(v, s, k, lo, hi) ((v) = rt_in(NAME(s, k), lo, hi))
#define NU(v, s, k) ((v) = rt_in(NAME(s, k), 0, 1000))
#else
#define NSEL(v, s, k, lo, hi) IN_SEL(v, s, lo, hi)
#define NU(v, s, k) IN_SEL(v, s, 0, 1000)
static duckVM_object_t *KB0[2], *KB1[2], *KB2[2], *KB3[2];
#endif
static void heap_setup(void) {
	u64 k, t, num, p, q;
#if NATIVE
	static dl_memoryAllocation_t ma;
	g_ma = ma;
	if (duckVM_init(&vm, &g_ma, N)) longjmp(rt_jmp, 3);
	heap = vm.gclist.objects; inuse = vm.gclist.objectInUse; freelist = vm.gclist.freeObjects;
	vm.gclist.freeObjects_length = 0;
#else
	vm.memoryAllocation = &g_ma;
	vm.gclist.duckVM = &vm;
	vm.gclist.memoryAllocation = &g_ma;
	vm.gclist.objects = heap; vm.gclist.objects_length = N;
	vm.gclist.freeObjects = freelist; vm.gclist.freeObjects_length = 0;
	vm.gclist.objectInUse = inuse;
	vm.stack.element_size = sizeof(duckVM_object_t);
	vm.upvalue_stack.element_size = sizeof(objptr_t);
	vm.call_stack.element_size = sizeof(duckVM_callFrame_t);
	vm.upvalue_array_call_stack.element_size = sizeof(duckVM_upvalueArray_t);
	vm.globals.element_size = sizeof(objptr_t);
	vm.globals_map.element_size = sizeof(dl_ptrdiff_t);
	vm.errors.element_size = 1;
	kids[0] = KB0; kids[1] = KB1; kids[2] = KB2; kids[3] = KB3;
#endif
	for (k = 0; k < N; k++) {
#if NATIVE
		dl_malloc(&g_ma, (void **) &kids[k], 2 * sizeof(void *));
#endif
		NSEL(t, "type", k, duckVM_object_type_none, duckVM_object_type_internalString);
		NU(num, "num", k); NSEL(p, "p", k, 0, N); NSEL(q, "q", k, 0, N);
		heap[k] = make(t, num, p, q, kids[k], &ch[k][0], &ch[k][1]);
		before[k] = heap[k];
		destroyed[k] = freed[k] = 0;
		dead_user[k] = t == duckVM_object_type_user && (num & 2);
	}
#if !NATIVE
	for (k = 0; k < N; k++) R[k] = nondet_u64() & 1;
	R[N] = 1;
	for (k = 0; k < N; k++) if (R[k]) ASSUME(R[ch[k][0]] && R[ch[k][1]]);
#endif
}
/* the set of cells closed under references and containing R; natively the least one */
static void close_R(void) {
#if NATIVE
	u64 k, i;
	R[N] = 1;
	for (i = 0; i < N; i++) for (k = 0; k < N; k++) if (R[k]) { R[ch[k][0]] = 1; R[ch[k][1]] = 1; }
#endif
}
static void heap_unchanged(void) {
	u64 k;
	for (k = 0; k < N; k++) CHECK("tracing changes no object", obj_eq(heap[k], before[k]));
}
static dl_bool_t marks0[N + 1];

#ifdef MARK
static dl_bool_t root_c[N + 1];   /* what must be traced on account of the root */
static dl_bool_t due0[N + 1], marked0[N + 1], was_marked;
static u64 pushes;
static int phase, stop_at;
static u64 next_cell;
#define DONE (N + 1)
#if !NATIVE
static dl_bool_t wl[N + 1];
static dl_array_t *worklist;
dl_error_t work_push(dl_array_t *a, void *el) {
	u64 k = cellno(*(objptr_t *) el);
	CHECK("only references to cells are followed", k <= N);
	CHECK("one worklist", !worklist || a == worklist);
	worklist = a;
	pushes++;
	if (nondet_u64() & 1) return nd_error();
	wl[k] = 1;
	return dl_error_ok;
}
static void invariant(void) {
	u64 k;
	for (k = 0; k < N; k++) {
		if (marks0[k]) CHECK("invariant: marks are never removed", inuse[k]);
		if (inuse[k]) CHECK("invariant: only reachable cells are marked", marks0[k] || R[k]);
		if (wl[k]) CHECK("invariant: only reachable cells are waiting", R[k]);
		if (inuse[k]) CHECK("invariant: what a marked cell refers to is marked or waiting",
			(ch[k][0] == N || inuse[ch[k][0]] || wl[ch[k][0]]) && (ch[k][1] == N || inuse[ch[k][1]] || wl[ch[k][1]]));
		if (root_c[k]) CHECK("invariant: what the root refers to is marked or waiting", inuse[k] || wl[k]);
	}
}
dl_error_t work_pop(dl_array_t *a, void *el) {
	u64 k;
	CHECK("one worklist", !worklist || a == worklist);
	worklist = a;
	invariant();
	if (phase > 0) {
		for (k = 0; k < N; k++) {
			if (marked0[k]) CHECK("invariant: marks are never removed", inuse[k]);
			if (due0[k]) CHECK("progress: what was waiting is marked or waits", inuse[k] || wl[k]);
		}
		if (was_marked) CHECK("termination: a cell that was marked before is not traced again", pushes == 0);
	}
	if (phase == stop_at) { REACH("iteration"); ASSUME(0); }
	phase++;
	/* an arbitrary point of the trace */
	for (k = 0; k < N; k++) { inuse[k] = nondet_u64() & 1; wl[k] = nondet_u64() & 1; }
	for (k = 0; k < N; k++) {
		ASSUME(!marks0[k] || inuse[k]);
		ASSUME(!inuse[k] || marks0[k] || R[k]);
		ASSUME(!wl[k] || R[k]);
		ASSUME(!inuse[k] || ((ch[k][0] == N || inuse[ch[k][0]] || wl[ch[k][0]]) && (ch[k][1] == N || inuse[ch[k][1]] || wl[ch[k][1]])));
		ASSUME(!root_c[k] || inuse[k] || wl[k]);
		due0[k] = wl[k]; marked0[k] = inuse[k];
	}
	pushes = 0;
	if (next_cell == DONE) {
		for (k = 0; k < N; k++) ASSUME(!wl[k]);
		return dl_error_bufferUnderflow;
	}
	if (next_cell == N) { *(objptr_t *) el = dl_null; was_marked = 1; return dl_error_ok; }
	ASSUME(wl[next_cell]);
	was_marked = inuse[next_cell];
	wl[next_cell] = nondet_u64() & 1;   /* it may wait more than once */
	*(objptr_t *) el = cellp(next_cell);
	return dl_error_ok;
}
#endif
static duckVM_object_t root;
/* object: cell number, N null, N + 1 a stack slot */
static void mark(u64 object, u64 next, int stop) {
	u64 k, c0, c1;
	dl_error_t e;
	heap_setup();
	for (k = 0; k < N; k++) { NSEL(marks0[k], "marked", k, 0, 1); root_c[k] = 0; }
	if (object == N + 1) {
		u64 t, num, p, q;
		IN_SEL(t, "root.type", duckVM_object_type_bool, duckVM_object_type_user);
		IN_SEL(num, "root.num", 0, 1000); IN_SEL(p, "root.p", 0, N); IN_SEL(q, "root.q", 0, N);
		root = make(t, num, p, q, dl_null, &c0, &c1);
		if (c0 < N) root_c[c0] = 1;
		if (c1 < N) root_c[c1] = 1;
	}
	else if (object < N) root_c[object] = 1;
#if NATIVE
	{ u64 i; marks0[N] = 1; for (i = 0; i < N; i++) for (k = 0; k < N; k++) if (marks0[k]) { marks0[ch[k][0]] = 1; marks0[ch[k][1]] = 1; } }
	for (k = 0; k < N; k++) R[k] = root_c[k];
	close_R();
#else
	marks0[N] = 1;
	for (k = 0; k < N; k++) { if (marks0[k]) ASSUME(marks0[ch[k][0]] && marks0[ch[k][1]]); ASSUME(!root_c[k] || R[k]); wl[k] = 0; }
	phase = 0; stop_at = stop; next_cell = next; worklist = dl_null; was_marked = 0;
#endif
	for (k = 0; k < N; k++) inuse[k] = marks0[k];
	e = duckVM_gclist_markObject(&vm.gclist, object == N + 1 ? &root : cellp(object), object == N + 1);
	heap_unchanged();
	for (k = 0; k < N; k++) {
		if (marks0[k]) CHECK("tracing removes no mark", inuse[k]);
		if (inuse[k]) CHECK("only reachable cells are marked", marks0[k] || R[k]);
	}
	if (e) { CHECK("tracing fails only for lack of memory", alloc_failed || NATIVE); REACH("failed"); }
	else {
		CHECK("a failure while tracing is reported", !alloc_failed);
		for (k = 0; k < N; k++) {
			if (inuse[k]) CHECK("everything a marked cell refers to is marked", (ch[k][0] == N || inuse[ch[k][0]]) && (ch[k][1] == N || inuse[ch[k][1]]));
			if (root_c[k]) CHECK("everything the root refers to is marked", inuse[k]);
		}
		REACH("complete");
	}
}
HARNESS(H_first0) { mark(0, N, 0); }
HARNESS(H_first3) { mark(3, N, 0); }
HARNESS(H_stack) { mark(N + 1, N, 0); }
HARNESS(H_null) { mark(N, N, 1); }
HARNESS(H_iter0) { mark(N, 0, 1); }
HARNESS(H_iter1) { mark(N, 1, 1); }
HARNESS(H_iter3) { mark(N, 3, 1); }
HARNESS(H_done) { mark(1, DONE, 1); }
HARNESS(H_donestack) { mark(N + 1, DONE, 1); }
#if !NATIVE
dl_error_t gc_malloc(void **p, dl_size_t size) { (void) p; (void) size; return nd_error(); }
dl_error_t gc_free(void **p) { *p = dl_null; return dl_error_ok; }
#endif
#elif !NATIVE
dl_error_t work_push(dl_array_t *a, void *el) { CHECK("no other array is changed", 0); (void) a; (void) el; return dl_error_ok; }
dl_error_t work_pop(dl_array_t *a, void *el) { CHECK("no other array is changed", 0); (void) a; (void) el; return dl_error_ok; }
#endif
#if !NATIVE
/* what the machine's roots hold: only references into R */
duckVM_object_t *gc_nd_objptr(void) { u64 k = nondet_u64(); ASSUME(k <= N && R[k]); return cellp(k); }
duckVM_callFrame_t gc_nd_frame(void) { duckVM_callFrame_t f; f.ip = dummy; f.bytecode = gc_nd_objptr(); return f; }
duckVM_object_t gc_nd_object(void) { duckVM_object_t o = {0}; return o; }
#endif

#ifdef COLLECT
#define RMAX 2
static u64 ln[4], root_no[4][RMAX][2];
static duckVM_object_t stack0[RMAX];
static dl_bool_t is_root[N + 1];
#if !NATIVE
static int mark_calls, mark_failed;
static dl_bool_t traced[4][RMAX], current_traced;
/* contract of duckVM_gclist_markObject (enforced by the MARK harnesses) */
dl_error_t c_mark(duckVM_gclist_t *g, duckVM_object_t *object, dl_bool_t stack) {
	u64 k, c0 = N, c1 = N;
	int known = 0;
	dl_bool_t old[N + 1];
	CHECK("marks go to the machine's heap", g == &vm.gclist);
	CHECK("marking is not repeated after a failure", !mark_failed);
	if (stack) {
		for (k = 0; k < RMAX; k++) if (k < ln[0] && object == STK(k)) { known = 1; c0 = root_no[0][k][0]; c1 = root_no[0][k][1]; }
		CHECK("what is traced as a stack slot is a stack slot", known);
	}
	else { c0 = cellno(object); CHECK("what is traced as a cell is a cell", c0 <= N); }
	CHECK("only reachable cells are traced", R[c0] && R[c1]);
	for (k = 0; k < N; k++) { old[k] = inuse[k]; inuse[k] = nondet_u64() & 1; ASSUME(!old[k] || inuse[k]); ASSUME(!inuse[k] || old[k] || R[k]); }
	if (nondet_u64() & 1) { mark_failed = 1; return nd_error(); }
	for (k = 0; k < N; k++) if (inuse[k]) ASSUME((ch[k][0] == N || inuse[ch[k][0]]) && (ch[k][1] == N || inuse[ch[k][1]]));
	if (c0 < N) ASSUME(inuse[c0]);
	if (c1 < N) ASSUME(inuse[c1]);
	return dl_error_ok;
}
dl_error_t gc_malloc(void **p, dl_size_t size) { CHECK("a collection allocates nothing else", 0); (void) p; (void) size; return dl_error_ok; }
/* contract of dl_free for a cell's own buffer */
dl_error_t gc_free(void **p) {
	u64 k;
	int hit = 0;
	for (k = 0; k < N; k++) {
		if (p == (void **) &heap[k].value.upvalue_array.upvalues && heap[k].type == duckVM_object_type_upvalueArray) { hit = 1; freed[k]++; heap[k].value.upvalue_array.upvalues = dl_null; }
		else if (p == (void **) &heap[k].value.internal_vector.values && heap[k].type == duckVM_object_type_internalVector) { hit = 1; freed[k]++; heap[k].value.internal_vector.values = dl_null; }
		else if (p == (void **) &heap[k].value.bytecode.bytecode && heap[k].type == duckVM_object_type_bytecode) { hit = 1; freed[k]++; heap[k].value.bytecode.bytecode = dl_null; }
		else if (p == (void **) &heap[k].value.internalString.value && heap[k].type == duckVM_object_type_internalString) { hit = 1; freed[k]++; heap[k].value.internalString.value = dl_null; }
	}
	CHECK("only buffers of cells are freed", hit);
	return dl_error_ok;
}
#endif
static void add_root(u64 k) { if (k < N) is_root[k] = 1; }
HARNESS(H_collect) {
	u64 k, i, count, cur;
	dl_error_t e;
	dl_bool_t reach[N + 1];
	heap_setup();
	IN_SEL(ln[0], "stack", 0, RMAX); IN_SEL(ln[1], "upvalues", 0, RMAX); IN_SEL(ln[2], "globals", 0, RMAX); IN_SEL(ln[3], "calls", 0, RMAX);
	for (k = 0; k <= N; k++) is_root[k] = 0;
#if !NATIVE
	for (k = 0; k < NFP; k++) FP[k] = ~0UL;
	for (k = 0; k < RMAX; k++) { FP[k] = k; GFP[k] = k; CFP[k] = k; }
	vm.stack.elements_length = ln[0]; vm.upvalue_stack.elements_length = ln[1]; vm.globals.elements_length = vm.globals_map.elements_length = ln[2];
	vm.call_stack.elements_length = ln[3]; vm.upvalue_array_call_stack.elements_length = 0;
	for (k = 0; k < N; k++) inuse[k] = nondet_u64() & 1;
#endif
	for (k = 0; k < RMAX; k++) {
		u64 t, num, p, q;
		duckVM_object_t *c;
		duckVM_callFrame_t f;
		NSEL(t, "s.type", k, duckVM_object_type_bool, duckVM_object_type_user);
		NU(num, "s.num", k); NSEL(p, "s.p", k, 0, N); NSEL(q, "s.q", k, 0, N);
		stack0[k] = make(t, num, p, q, dl_null, &root_no[0][k][0], &root_no[0][k][1]);
		NSEL(root_no[1][k][0], "u", k, 0, N); NSEL(root_no[2][k][0], "g", k, 0, N); NSEL(root_no[3][k][0], "c", k, 0, N);
		for (i = 0; i < 4; i++) if (k < ln[i]) { add_root(root_no[i][k][0]); if (i == 0) add_root(root_no[i][k][1]); }
#if NATIVE
		if (k < ln[0]) dl_array_pushElement(&vm.stack, &stack0[k]);
		c = cellp(root_no[1][k][0]); if (k < ln[1]) dl_array_pushElement(&vm.upvalue_stack, &c);
		c = cellp(root_no[2][k][0]); if (k < ln[2]) dl_array_pushElement(&vm.globals, &c);
		f.ip = dummy; f.bytecode = cellp(root_no[3][k][0]); if (k < ln[3]) dl_array_pushElement(&vm.call_stack, &f);
#else
		STK_set(k, stack0[k]);
		UPS_set(k, cellp(root_no[1][k][0]));
		GVAL_set(k, cellp(root_no[2][k][0]));
		f.ip = dummy; f.bytecode = cellp(root_no[3][k][0]); CALLS_set(k, f);
#endif
	}
	IN_SEL(cur, "current", 0, N);
	vm.currentBytecode = cellp(cur);
	add_root(cur);
#if NATIVE
	for (k = 0; k < N; k++) R[k] = is_root[k];
	close_R();
#else
	for (k = 0; k < N; k++) ASSUME(!is_root[k] || R[k]);
	mark_failed = 0;
#endif
	e = duckVM_gclist_garbageCollect(&vm);
	/* survivors: the cells not handed back */
	count = 0;
	for (k = 0; k < N; k++) {
		u64 times = 0;
		for (i = 0; i < N; i++) if (i < vm.gclist.freeObjects_length && freelist[i] == cellp(k)) times++;
		CHECK("a cell becomes available at most once", times <= 1);
		reach[k] = !times;
		if (times) count++;
	}
	reach[N] = 1;
	CHECK("the list of available cells holds nothing else", vm.gclist.freeObjects_length == count);
	for (k = 0; k < N; k++) {
		if (is_root[k]) CHECK("every cell a root refers to survives", reach[k]);
		if (reach[k] && !e) CHECK("every cell a survivor refers to survives", reach[ch[k][0]] && reach[ch[k][1]]);
		if (reach[k]) CHECK("survivors are unchanged", obj_eq(heap[k], before[k]));
		if (reach[k]) CHECK("survivors keep their buffers", !freed[k] && !destroyed[k]);
		if (!reach[k]) CHECK("destructors run once", destroyed[k] == dead_user[k]);
		if (!reach[k] && !e && heap[k].type == before[k].type) {
			if (before[k].type == duckVM_object_type_upvalueArray) CHECK("a reclaimed cell does not refer to its old buffer", !heap[k].value.upvalue_array.upvalues);
			if (before[k].type == duckVM_object_type_bytecode) CHECK("a reclaimed cell does not refer to its old buffer", !heap[k].value.bytecode.bytecode);
			if (before[k].type == duckVM_object_type_internalString) CHECK("a reclaimed cell does not refer to its old buffer", !heap[k].value.internalString.value);
		}
#if !NATIVE
		if (!reach[k] && before[k].type == duckVM_object_type_upvalueArray) CHECK("an unreachable cell's buffer is freed", freed[k] == (before[k].value.upvalue_array.upvalues != dl_null));
		if (!reach[k] && before[k].type == duckVM_object_type_bytecode) CHECK("an unreachable cell's buffer is freed", freed[k] == 1);
		if (!reach[k] && before[k].type == duckVM_object_type_internalString) CHECK("an unreachable cell's buffer is freed", freed[k] == 1);
		CHECK("no buffer is freed twice", freed[k] <= 1);
#endif
		if (!e && !R[k]) CHECK("every unreachable cell becomes available", !reach[k]);
	}
	if (e) { CHECK("a collection fails only for lack of memory", alloc_failed || NATIVE); REACH("failed"); }
	else { CHECK("a failure while tracing is reported", !alloc_failed || NATIVE); REACH("collected"); }
	for (k = 0; k < RMAX; k++) {
		if (k < ln[0]) CHECK("the stack is unchanged", obj_eq(STK_get(k), stack0[k]));
#if !NATIVE
		if (k < ln[1]) CHECK("the captured variables are unchanged", UPS_get(k) == cellp(root_no[1][k][0]));
		if (k < ln[2]) CHECK("the globals are unchanged", GVAL_get(k) == cellp(root_no[2][k][0]));
#endif
	}
	CHECK("the roots are unchanged", vm.stack.elements_length == ln[0] && vm.upvalue_stack.elements_length == ln[1] && vm.globals.elements_length == ln[2]
		&& vm.call_stack.elements_length == ln[3] && vm.currentBytecode == cellp(cur));
}
#endif

#ifdef ALLOC
static u64 gb;      /* arbitrary byte of the buffer */
static u64 blen, free0;
static dl_bool_t is_free[N + 1];
static dl_uint8_t *src;
#if !NATIVE
static int collections;
/* contract of duckVM_gclist_garbageCollect (enforced by the COLLECT harness) */
dl_error_t c_collect(duckVM_t *v) {
	u64 k, i, n = nondet_u64();
	(void) v;
	collections++;
	if (nondet_u64() & 1) return nd_error();
	ASSUME(n <= N);
	vm.gclist.freeObjects_length = n;
	for (i = 0; i < N; i++) { u64 c = nondet_u64(); ASSUME(c < N); freelist[i] = cellp(c); }
	for (i = 0; i < N; i++) for (k = 0; k < i; k++) ASSUME(freelist[i] != freelist[k]);
	for (k = 0; k < N; k++) { is_free[k] = 0; for (i = 0; i < N; i++) if (i < n && freelist[i] == cellp(k)) is_free[k] = 1; }
	return dl_error_ok;
}
static u64 new_k;   /* the cell a buffer was allocated for */
static dl_uint8_t *the_buf;
static u64 the_size;
dl_error_t gc_malloc(void **p, dl_size_t size) {
	u64 k;
	int hit = 0;
	if (nondet_u64() & 1) return nd_error();
	CHECK("one buffer per object", !the_buf);
	the_buf = malloc(size);
	the_size = size;
	for (k = 0; k < N; k++) {
		if (p == (void **) &heap[k].value.upvalue_array.upvalues && heap[k].type == duckVM_object_type_upvalueArray) { hit = 1; new_k = k; heap[k].value.upvalue_array.upvalues = (void *) the_buf; }
		else if (p == (void **) &heap[k].value.internal_vector.values && heap[k].type == duckVM_object_type_internalVector) { hit = 1; new_k = k; heap[k].value.internal_vector.values = (void *) the_buf; }
		else if (p == (void **) &heap[k].value.bytecode.bytecode && heap[k].type == duckVM_object_type_bytecode) { hit = 1; new_k = k; heap[k].value.bytecode.bytecode = the_buf; }
		else if (p == (void **) &heap[k].value.internalString.value && heap[k].type == duckVM_object_type_internalString) { hit = 1; new_k = k; heap[k].value.internalString.value = the_buf; }
	}
	CHECK("buffers are allocated for the new cell", hit);
	return dl_error_ok;
}
dl_error_t gc_free(void **p) { CHECK("allocation frees nothing itself", 0); (void) p; return dl_error_ok; }
void c_memcopy(void *dst, const void *s, const dl_size_t size) {
	if (size) {
		u64 at = (u64) ((dl_uint8_t *) dst - the_buf);
		CHECK("copy reads only the given buffer", __CPROVER_r_ok(s, size));
		CHECK("copy goes to the new buffer", the_buf && __CPROVER_same_object(dst, the_buf) && __CPROVER_w_ok(dst, size));
		if (gb >= at && gb - at < size) the_buf[gb] = ((const dl_uint8_t *) s)[gb - at];
	}
}
#endif
static void alloc(u64 t) {
	u64 k, i, num, p, q, c0, c1, init = 0, unit = 1, was_free;
	duckVM_object_t in, *out, *out0;
	dl_uint8_t ghost = 0;
	dl_error_t e;
	heap_setup();
	IN_SEL(num, "num", 0, 1000); IN_SEL(p, "p", 0, N); IN_SEL(q, "q", 0, N);
	IN_SEL(free0, "free", 0, N);
#if NATIVE
	for (k = 0; k <= N; k++) is_free[k] = 0;
	for (i = 0; i < free0; i++) { k = (i + num) % N; freelist[i] = cellp(k); is_free[k] = 1; }
#else
	for (i = 0; i < N; i++) { u64 c = nondet_u64(); ASSUME(c < N); freelist[i] = cellp(c); }
	for (i = 0; i < N; i++) for (k = 0; k < i; k++) ASSUME(freelist[i] != freelist[k]);
	for (k = 0; k <= N; k++) { is_free[k] = 0; for (i = 0; i < N; i++) if (i < free0 && freelist[i] == cellp(k)) is_free[k] = 1; }
	the_buf = dl_null; collections = 0;
#endif
	vm.gclist.freeObjects_length = free0;
	in = make(t, num, p, q, kids[0], &c0, &c1);
	if (t == duckVM_object_type_upvalueArray || t == duckVM_object_type_internalVector) unit = sizeof(void *);
	IN_USUAL(blen, "length", 0, 9, NATIVE ? 9 : unit == 1 ? 1UL << 50 : ~0UL);
	IN_SEL(gb, "byte", 0, NATIVE ? 80 : ~0UL);
	IN_SEL(init, "initialized", 0, 1);
	if (t == duckVM_object_type_upvalueArray) { ASSUME(blen < (1UL << 40)); }   /* the count is a 32 bit operand */
	src = dl_null;
	if (t == duckVM_object_type_upvalueArray || t == duckVM_object_type_internalVector || t == duckVM_object_type_bytecode || t == duckVM_object_type_internalString) {
		if (blen && blen <= ~0UL / 8 / 256) { src = malloc(blen * unit); 
#if NATIVE
			for (i = 0; i < blen * unit; i++) src[i] = (dl_uint8_t) (37 * i + num);
#endif
		}
		if (t == duckVM_object_type_internalVector && blen > ~0UL / 8 / 256) init = 0;
		if (t == duckVM_object_type_upvalueArray) { in.value.upvalue_array.upvalues = (void *) src; in.value.upvalue_array.length = blen; }
		if (t == duckVM_object_type_internalVector) { in.value.internal_vector.values = (void *) src; in.value.internal_vector.length = blen; in.value.internal_vector.initialized = init; }
		if (t == duckVM_object_type_bytecode) { in.value.bytecode.bytecode = src; in.value.bytecode.bytecode_length = blen; }
		if (t == duckVM_object_type_internalString) { in.value.internalString.value = src; in.value.internalString.value_length = blen; }
		if (src && gb < blen * unit) ghost = src[gb];
	}
	out = out0 = cellp(0);
	e = duckVM_gclist_pushObject(&vm, &out, in);
	if (e) {
		CHECK("allocation fails only when memory is exhausted", alloc_failed || NATIVE || vm.gclist.freeObjects_length == 0 || (t == duckVM_object_type_internalVector && blen > ~0UL / 8));
		CHECK("a failed allocation hands out no cell", out == out0);
		for (k = 0; k < N; k++) if (!is_free[k] && !(NATIVE && free0 == 0)) CHECK("a failed allocation changes no cell in use", obj_eq(heap[k], before[k]));
#if !NATIVE
		for (k = 0; k < N; k++) if (is_free[k] && heap[k].type == t) {
			/* the cell may have been taken: it must not own somebody else's buffer */
			if (t == duckVM_object_type_internalString && src) CHECK("an abandoned cell owns no foreign buffer", heap[k].value.internalString.value != src);
			if (t == duckVM_object_type_bytecode && src) CHECK("an abandoned cell owns no foreign buffer", heap[k].value.bytecode.bytecode != src);
			if (t == duckVM_object_type_internalVector && src) CHECK("an abandoned cell owns no foreign buffer", (void *) heap[k].value.internal_vector.values != src);
			if (t == duckVM_object_type_upvalueArray && src) CHECK("an abandoned cell owns no foreign buffer", (void *) heap[k].value.upvalue_array.upvalues != src);
		}
#endif
		REACH("failed");
		return;
	}
	k = cellno(out);
	CHECK("the object gets a cell of the heap", k < N);
	if (!(NATIVE && free0 == 0)) {
		was_free = k < N && is_free[k];
		CHECK("a cell that was not in use", was_free);
		for (i = 0; i < N; i++) if (i != k && !is_free[i]) CHECK("no other cell changes", obj_eq(heap[i], before[i]));
		for (i = 0; i < N; i++) {
			u64 j, times = 0;
			for (j = 0; j < N; j++) if (j < vm.gclist.freeObjects_length && freelist[j] == cellp(i)) times++;
			CHECK("exactly this cell is taken from the available ones", times == (is_free[i] && i != k));
		}
	}
	CHECK("the cell has the object's type", out->type == t);
	if (t == duckVM_object_type_internalString) {
		CHECK("the string has the given length", out->value.internalString.value_length == blen);
		if (!blen) CHECK("an empty string has no buffer", !out->value.internalString.value);
		else {
			CHECK("the string has a buffer of its own", out->value.internalString.value && out->value.internalString.value != src);
			if (gb < blen) CHECK("the string has the given bytes", out->value.internalString.value[gb] == ghost);
#if !NATIVE
			CHECK("the buffer is large enough", the_size == blen);
#endif
		}
	}
	else if (t == duckVM_object_type_bytecode) {
		CHECK("the code has the given length", out->value.bytecode.bytecode_length == blen);
		if (!blen) CHECK("empty code has no buffer", !out->value.bytecode.bytecode);
		else {
			CHECK("the code has a buffer of its own", out->value.bytecode.bytecode && out->value.bytecode.bytecode != src);
			if (gb < blen) CHECK("the code has the given bytes", out->value.bytecode.bytecode[gb] == ghost);
#if !NATIVE
			CHECK("the buffer is large enough", the_size == blen);
#endif
		}
	}
	else if (t == duckVM_object_type_internalVector) {
		CHECK("the vector has the given length", out->value.internal_vector.length == blen && out->value.internal_vector.initialized == init);
		if (!blen) CHECK("an empty vector has no buffer", !out->value.internal_vector.values);
		else {
			CHECK("the vector has a buffer of its own", out->value.internal_vector.values && (void *) out->value.internal_vector.values != src);
			if (init && gb < blen * unit) CHECK("an initialised vector has the given elements", ((dl_uint8_t *) out->value.internal_vector.values)[gb] == ghost);
#if !NATIVE
			CHECK("the buffer is large enough", blen <= ~0UL / sizeof(void *) && the_size == blen * sizeof(void *));
#endif
		}
	}
	else if (t == duckVM_object_type_upvalueArray) {
		CHECK("the list has the given length", out->value.upvalue_array.length == blen);
		if (!blen) CHECK("an empty list has no buffer", !out->value.upvalue_array.upvalues);
		else {
			CHECK("the list has a buffer of its own", out->value.upvalue_array.upvalues && (void *) out->value.upvalue_array.upvalues != src);
#if !NATIVE
			CHECK("the buffer is large enough", the_size == blen * sizeof(void *));
#endif
		}
	}
	else CHECK("the cell holds the object", obj_eq(*out, in));
#if !NATIVE
	CHECK("a collection only happens when no cell is available", collections == (free0 == 0));
#endif
	REACH("allocated");
}
HARNESS(H_string) { alloc(duckVM_object_type_internalString); }
HARNESS(H_bytecode) { alloc(duckVM_object_type_bytecode); }
HARNESS(H_vector) { alloc(duckVM_object_type_internalVector); }
HARNESS(H_upvalues) { alloc(duckVM_object_type_upvalueArray); }
HARNESS(H_other) {
	u64 t;
	IN_SEL(t, "t", duckVM_object_type_none, duckVM_object_type_internalComposite);
	ASSUME(t != duckVM_object_type_internalString && t != duckVM_object_type_bytecode && t != duckVM_object_type_internalVector && t != duckVM_object_type_upvalueArray);
	alloc(t);
}
#endif

#ifdef INIT
#if !NATIVE
dl_error_t gc_malloc(void **p, dl_size_t size) { if (nondet_u64() & 1) return nd_error(); *p = malloc(size); return dl_error_ok; }
dl_error_t gc_free(void **p) { *p = dl_null; return dl_error_ok; }
#endif
#define CELLS0 3
HARNESS(H_init) {
	dl_error_t e;
	u64 i, k;
	dl_memoryAllocation_t ma = {0};
	g_ma = ma;
	e = duckVM_gclist_init(&vm.gclist, &g_ma, &vm, CELLS0);
	if (e) { CHECK("creating a heap fails only for lack of memory", alloc_failed || NATIVE); REACH("failed"); return; }
	CHECK("a failed allocation is reported", !alloc_failed);
	CHECK("the heap has the requested number of cells, all available", vm.gclist.objects_length == CELLS0 && vm.gclist.freeObjects_length == CELLS0);
	for (k = 0; k < CELLS0; k++) {
		u64 times = 0;
		for (i = 0; i < CELLS0; i++) if (vm.gclist.freeObjects[i] == &vm.gclist.objects[k]) times++;
		CHECK("every cell is available once", times == 1);
		CHECK("no cell owns anything", vm.gclist.objects[k].type == duckVM_object_type_none);
		vm.gclist.objectInUse[k] = 1;
	}
	REACH("created");
}
#endif
