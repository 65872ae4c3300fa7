/* Environment for contracts on duckVM.c.  The real file is included textually, so its static
 * functions and the 3900-line instruction interpreter are verified as they are compiled.
 *
 * CBMC mode: the calls listed in vm_calls.txt (dl_array_*, allocator, error log, heap allocator, global map)
 * are replaced by the contracts c_* below.  Each contract is enforced on the real callee by its own
 * property (D-series/G-series), so a caller is checked against the contract, not the body.
 * Native mode: nothing is replaced.
 */
#ifndef VM_H
#define VM_H
#include "rt.h"
#include "DuckLib/array.h"
#ifdef __CPROVER__
/* Element access macros of the VM's own arrays go through the array contract. */
#undef DL_ARRAY_GETTOPADDRESS
#undef DL_ARRAY_GETADDRESS
void *c_array_at(dl_array_t *a, dl_ptrdiff_t i, dl_size_t element_size);
#define DL_ARRAY_GETADDRESS(array, type, index) (*(type *) c_array_at(&(array), (index), sizeof(type)))
#define DL_ARRAY_GETTOPADDRESS(array, type) (*(type *) c_array_at(&(array), (dl_ptrdiff_t) (array).elements_length - 1, sizeof(type)))
#endif
#ifdef __CPROVER__
/* duckVM.h with the members of the object union in another order (check.py generates it from /repo on every run):
 * works around a defect of CBMC 6.11's simplifier, see DESIGN.md. */
#include "duckVM_reordered.h"
#endif
#if defined(GLOBMAP) && defined(__CPROVER__)
/* The table scans are loops over every entry.  The loop rule for them: start at an arbitrary entry under the invariant,
 * run the body once, re-establish the invariant for the next entry; or leave the loop with the invariant at the end. */
#undef DL_DOTIMES
static dl_ptrdiff_t cut_begin(u64 top);
static int cut_more(u64 i, u64 top);
static dl_ptrdiff_t cut_next(u64 i, u64 top);
#define DL_DOTIMES(I, TOP) for (dl_ptrdiff_t I = cut_begin((u64) (TOP)); cut_more((u64) I, (u64) (TOP)); I = cut_next((u64) I, (u64) (TOP)))
#endif
#include "duckVM.c"

#ifdef SMALL
#define SMALL_OR(a, b) (a)
#else
#define SMALL_OR(a, b) (b)
#endif
#ifndef NH
#define NH 3        /* candidate pre-existing heap objects (every aliasing pattern among them is covered) */
#endif
#ifndef NN
#define NN 4        /* fresh cells one step may take from the heap allocator */
#endif
#ifndef NFP
#define NFP 8       /* stack indices the contract of the stack array tracks; any other index reads as arbitrary */
#endif
#define NCF 3

static dl_memoryAllocation_t g_ma;
static duckVM_t vm;
static u64 n0;                 /* stack depth before the step */
static u64 FP[NFP];            /* tracked stack indices; the first match is canonical */
static u64 c0;                 /* call stack depth before the step */
static u64 gc_i;               /* arbitrary call stack index (frame condition) */
/* candidate heap objects: distinct C objects, so that pointers to them stay finite case distinctions */
#ifdef __CPROVER__
static duckVM_object_t H0_, H1_, H2_, H3_, H4_, H5_;
#define heap_obj(k) ((k) == 0 ? &H0_ : (k) == 1 ? &H1_ : (k) == 2 ? &H2_ : (k) == 3 ? &H3_ : (k) == 4 ? &H4_ : &H5_)
#else
static duckVM_object_t *HP_[NH + 1];
#define heap_obj(k) (HP_[k])
#endif
static duckVM_object_t *HP(u64 k) {
	if (k == 0) return (duckVM_object_t *) 0;
	if (NH > 0 && k == 1) return heap_obj(0);
	if (NH > 1 && k == 2) return heap_obj(1);
	if (NH > 2 && k == 3) return heap_obj(2);
	if (NH > 3 && k == 4) return heap_obj(3);
	if (NH > 4 && k == 5) return heap_obj(4);
	if (NH > 5 && k == 6) return heap_obj(5);
	return (duckVM_object_t *) 0;
}
static dl_bool_t ext_root[NH + 1]; /* object is also reachable from elsewhere (globals, deeper stack...) */
#define NATIVE_OOM 0
static int alloc_failed;       /* some allocation failed during the step */

#ifdef __CPROVER__
typedef duckVM_object_t *objptr_t;
static duckVM_object_t N0_, N1_, N2_, N3_, N4_, N5_, N6_, N7_;
#define new_obj(k) ((k) == 0 ? &N0_ : (k) == 1 ? &N1_ : (k) == 2 ? &N2_ : (k) == 3 ? &N3_ : (k) == 4 ? &N4_ : (k) == 5 ? &N5_ : (k) == 6 ? &N6_ : &N7_)
static int new_n;
static dl_bool_t dead_h[NH + 1], dead_n[NN];

/* ---- contract: dl_array_* as a mathematical sequence ---------------------------------------- *
 * The sequence is tracked at the indices FP[] (call stacks: CFP[]); reading anywhere else gives an
 * arbitrary element, which over-approximates every real content.  array.c is proved to implement
 * this sequence, for every element size and strategy, by the dynamic-array property. */
/* One C object per tracked slot (not an array): pointers to slots stay finite case distinctions. */
#define CELLS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#define CCELLS(X) X(0) X(1) X(2)
static u64 CFP[NCF];
duckVM_object_t nondet_object(void);
objptr_t nondet_objptr(void);
duckVM_callFrame_t nondet_frame(void);
duckVM_upvalueArray_t nondet_upvalueArray(void);
#define X(k) static duckVM_object_t CELL##k; static objptr_t UCELL##k;
CELLS(X)
#undef X
#define X(k) static duckVM_callFrame_t FCELL##k; static duckVM_upvalueArray_t ACELL##k;
CCELLS(X)
#undef X
static duckVM_object_t OTHER_CELL;
static objptr_t OTHER_UCELL;
static duckVM_callFrame_t OTHER_FCELL;
static duckVM_upvalueArray_t OTHER_ACELL;

#define SEQ(T, NAME, LIST, CELLNAME, IDX, OTHER, ND) \
	static T *NAME(u64 i) { LIST(X_AT) OTHER = ND(); return &OTHER; } \
	static T NAME##_get(u64 i) { LIST(X_GET) return ND(); } \
	static void NAME##_set(u64 i, T v) { LIST(X_SET) }
#define X_AT(k) if (FP[k] == i) return &CELL##k;
#define X_GET(k) if (FP[k] == i) return CELL##k;
#define X_SET(k) if (FP[k] == i) { CELL##k = v; return; }
SEQ(duckVM_object_t, STK, CELLS, CELL, FP, OTHER_CELL, nondet_object)
#undef X_AT
#undef X_GET
#undef X_SET
#define X_AT(k) if (FP[k] == i) return &UCELL##k;
#define X_GET(k) if (FP[k] == i) return UCELL##k;
#define X_SET(k) if (FP[k] == i) { UCELL##k = v; return; }
SEQ(objptr_t, UPS, CELLS, UCELL, FP, OTHER_UCELL, nondet_objptr)
#undef X_AT
#undef X_GET
#undef X_SET
#define X_AT(k) if (CFP[k] == i) return &FCELL##k;
#define X_GET(k) if (CFP[k] == i) return FCELL##k;
#define X_SET(k) if (CFP[k] == i) { FCELL##k = v; return; }
SEQ(duckVM_callFrame_t, CALLS, CCELLS, FCELL, CFP, OTHER_FCELL, nondet_frame)
#undef X_AT
#undef X_GET
#undef X_SET
#define X_AT(k) if (CFP[k] + 1 == i) return &ACELL##k;
#define X_GET(k) if (CFP[k] + 1 == i) return ACELL##k;
#define X_SET(k) if (CFP[k] + 1 == i) { ACELL##k = v; return; }
SEQ(duckVM_upvalueArray_t, UPCALLS, CCELLS, ACELL, CFP, OTHER_ACELL, nondet_upvalueArray)

#if defined(GLOBMAP) || defined(GLOBSEQ)
/* the table of globals: entries tracked at GFP[]; the key looked for occurs at most once, at entry GFP[0] (~0: nowhere) */
typedef dl_ptrdiff_t globkey_t;
static u64 GFP[3];
static globkey_t the_key;
static globkey_t KCELL0, KCELL1, KCELL2, OTHER_KCELL;
static objptr_t VCELL0, VCELL1, VCELL2, OTHER_VCELL;
static globkey_t nondet_otherkey(void) { globkey_t k = (globkey_t) nondet_u64(); ASSUME(k != the_key); return k; }
#define GCELLS(X) X(0) X(1) X(2)
#define X_AT(k) if (GFP[k] == i) return &KCELL##k;
#define X_GET(k) if (GFP[k] == i) return KCELL##k;
#define X_SET(k) if (GFP[k] == i) { KCELL##k = v; return; }
SEQ(globkey_t, GKEY, GCELLS, KCELL, GFP, OTHER_KCELL, nondet_otherkey)
#undef X_AT
#undef X_GET
#undef X_SET
#define X_AT(k) if (GFP[k] == i) return &VCELL##k;
#define X_GET(k) if (GFP[k] == i) return VCELL##k;
#define X_SET(k) if (GFP[k] == i) { VCELL##k = v; return; }
SEQ(objptr_t, GVAL, GCELLS, VCELL, GFP, OTHER_VCELL, nondet_objptr)
#define BY_GLOBALS(M) else if (a == &vm.globals) M(objptr_t, GVAL); else if (a == &vm.globals_map) M(globkey_t, GKEY);
#else
#define BY_GLOBALS(M)
#endif

dl_error_t real_dl_array_pushElement(dl_array_t *, void *);
dl_error_t real_dl_array_pushElements(dl_array_t *, const void *, dl_size_t);
dl_error_t real_dl_array_popElement(dl_array_t *, void *);
dl_error_t real_dl_array_popElements(dl_array_t *, void *, dl_size_t);
dl_error_t real_dl_array_getTop(dl_array_t *, void *);
dl_error_t real_dl_array_setTop(dl_array_t *, void *);
dl_error_t real_dl_array_get(dl_array_t *, void *, dl_ptrdiff_t);
dl_error_t real_dl_array_set(dl_array_t *, const void *, dl_ptrdiff_t);

static dl_error_t nd_error(void) { u64 r = nondet_u64(); ASSUME(r >= 1 && r <= 8); alloc_failed = 1; return (dl_error_t) r; }

#define BY_ARRAY(M, real) do { \
	if (a == &vm.stack) M(duckVM_object_t, STK); \
	else if (a == &vm.upvalue_stack) M(objptr_t, UPS); \
	else if (a == &vm.call_stack) M(duckVM_callFrame_t, CALLS); \
	else if (a == &vm.upvalue_array_call_stack) M(duckVM_upvalueArray_t, UPCALLS); \
	BY_GLOBALS(M) \
	else real; } while (0)
#define M_PUSH(T, AT) do { \
	if (nondet_u64() & 1) return nd_error(); \
	if (el) AT##_set(a->elements_length, *(T *) el); \
	else { T z_ = {0}; AT##_set(a->elements_length, z_); } \
	a->elements_length++; \
	return dl_error_ok; } while (0)
#define M_GET(T, AT) do { \
	if (i < 0 || (dl_size_t) i >= a->elements_length) return dl_error_invalidValue; \
	*(T *) el = AT##_get(i); return dl_error_ok; } while (0)
#define M_SET(T, AT) do { \
	if (i < 0 || (dl_size_t) i >= a->elements_length) return dl_error_invalidValue; \
	AT##_set(i, *(const T *) el); return dl_error_ok; } while (0)
#define M_POP(T, AT) do { \
	if (a->elements_length == 0) return dl_error_bufferUnderflow; \
	if (el) *(T *) el = AT##_get(a->elements_length - 1); \
	a->elements_length--; return dl_error_ok; } while (0)
#define M_GETTOP(T, AT) do { \
	if (a->elements_length == 0) return dl_error_bufferUnderflow; \
	*(T *) el = AT##_get(a->elements_length - 1); return dl_error_ok; } while (0)
#define M_SETTOP(T, AT) do { \
	if (a->elements_length == 0) return dl_error_bufferUnderflow; \
	AT##_set(a->elements_length - 1, *(T *) el); return dl_error_ok; } while (0)
#define M_AT(T, AT) return AT(i)

dl_error_t dl_array_pushElement(dl_array_t *a, void *el) {
	if (a == &vm.errors) { if (nondet_u64() & 1) return nd_error(); a->elements_length++; return dl_error_ok; }
#ifdef GC_HOOKS
	BY_ARRAY(M_PUSH, return work_push(a, el));
#else
	BY_ARRAY(M_PUSH, return real_dl_array_pushElement(a, el));
#endif
}
dl_error_t dl_array_get(dl_array_t *a, void *el, dl_ptrdiff_t i) { BY_ARRAY(M_GET, return real_dl_array_get(a, el, i)); }
dl_error_t dl_array_set(dl_array_t *a, const void *el, dl_ptrdiff_t i) { BY_ARRAY(M_SET, return real_dl_array_set(a, el, i)); }
dl_error_t dl_array_popElement(dl_array_t *a, void *el) {
#ifdef GC_HOOKS
	BY_ARRAY(M_POP, return work_pop(a, el));
#else
	BY_ARRAY(M_POP, return real_dl_array_popElement(a, el));
#endif
}
dl_error_t dl_array_getTop(dl_array_t *a, void *el) { BY_ARRAY(M_GETTOP, return real_dl_array_getTop(a, el)); }
dl_error_t dl_array_setTop(dl_array_t *a, void *el) { BY_ARRAY(M_SETTOP, return real_dl_array_setTop(a, el)); }
void *c_array_at(dl_array_t *a, dl_ptrdiff_t i, dl_size_t element_size) {
	CHECK("direct element access is within the array", i >= 0 && (dl_size_t) i < a->elements_length);
	BY_ARRAY(M_AT, return (unsigned char *) a->elements + i * element_size);
}
dl_error_t dl_array_popElements(dl_array_t *a, void *els, dl_size_t count) {
	if (els) return real_dl_array_popElements(a, els, count);
	if (count == 0) return dl_error_ok;
	if (count > a->elements_length) return dl_error_bufferUnderflow;
	a->elements_length -= count;
	return dl_error_ok;
}
dl_error_t dl_array_pushElements(dl_array_t *a, const void *els, dl_size_t count) {
	if (a == &vm.errors) {
		if (count == 0) return dl_error_ok;
		if (nondet_u64() & 1) return nd_error();
		a->elements_length += count;
		return dl_error_ok;
	}
	return real_dl_array_pushElements(a, els, count);
}

/* ---- contract: runtime error log (only the log changes; may itself fail) ------------------ */
dl_error_t c_error_pushRuntime(duckVM_t *v, const dl_uint8_t *message, const dl_size_t length) {
	(void) message; (void) length;
	v->errors.elements_length = nondet_u64();
	if (nondet_u64() & 1) { u64 r = nondet_u64(); ASSUME(r >= 1 && r <= 8); return (dl_error_t) r; }
	return dl_error_ok;
}

/* ---- contract: allocator ------------------------------------------------------------------ */
dl_error_t dl_malloc(dl_memoryAllocation_t *m, void **p, dl_size_t size) {
	(void) m;
#ifdef GC_HOOKS
	return gc_malloc(p, size);
#endif
	if (nondet_u64() & 1) return nd_error();
	*p = malloc(size);
	return dl_error_ok;
}
dl_error_t dl_free(dl_memoryAllocation_t *m, void **p) {
	(void) m;
#ifdef GC_HOOKS
	return gc_free(p);
#endif
	free(*p);
	*p = dl_null;
	return dl_error_ok;
}
dl_error_t dl_realloc(dl_memoryAllocation_t *m, void **p, dl_size_t size) {
	(void) m;
	if (nondet_u64() & 1) return nd_error();
#ifdef STR_FOOTPRINT
	/* contents kept up to the smaller size, followed at one byte */
	{
		dl_uint8_t *q = malloc(size), *old;
		/* the cell's buffer is read through its own type (CBMC loses the object otherwise) */
		if (p == (void **) &N0_.value.internalString.value) old = N0_.value.internalString.value; else old = *p;
		if (old && str_fp[0] < size && str_fp[0] < __CPROVER_OBJECT_SIZE(old)) q[str_fp[0]] = old[str_fp[0]];
		free(old);
		*p = q;
	}
#else
	*p = realloc(*p, size);
#endif
	return dl_error_ok;
}

#include "vm_heap.h"
#else
static int new_n;
static duckVM_object_t *STK(u64 i) { return &((duckVM_object_t *) vm.stack.elements)[i]; }
static duckVM_object_t **UPS(u64 i) { return &((duckVM_object_t **) vm.upvalue_stack.elements)[i]; }
static duckVM_callFrame_t *CALLS(u64 i) { return &((duckVM_callFrame_t *) vm.call_stack.elements)[i]; }
static duckVM_upvalueArray_t *UPCALLS(u64 i) { return &((duckVM_upvalueArray_t *) vm.upvalue_array_call_stack.elements)[i]; }
static duckVM_object_t STK_get(u64 i) { return *STK(i); }
static duckVM_object_t *UPS_get(u64 i) { return *UPS(i); }
static void STK_set(u64 i, duckVM_object_t v) { *STK(i) = v; }
static void UPS_set(u64 i, duckVM_object_t *v) { *UPS(i) = v; }
#endif

/* ---- symbolic objects ---------------------------------------------------------------------- */
static dl_error_t callback_stub(duckVM_t *);
typedef union { u64 u; double d; } u64d_t;

static duckVM_object_t build_obj(u64 t, u64 num, u64 p, u64 q, u64 off, u64 len, u64 ar) {
	duckVM_object_t o = {0};
	o.type = (duckVM_object_type_t) t;
	switch (t) {
	case duckVM_object_type_bool: o.value.boolean = num & 1; break;
	case duckVM_object_type_integer: o.value.integer = (dl_ptrdiff_t) num; break;
	case duckVM_object_type_float: { u64d_t c; c.u = num; o.value.floatingPoint = c.d; break; }
	case duckVM_object_type_string:
		o.value.string.internalString = HP(p);
		o.value.string.offset = (dl_ptrdiff_t) off;
		o.value.string.length = len;
		break;
	case duckVM_object_type_list: o.value.list = HP(p); break;
	case duckVM_object_type_symbol: o.value.symbol.id = num; o.value.symbol.internalString = HP(p); break;
	case duckVM_object_type_function: o.value.function.callback = callback_stub; break;
	case duckVM_object_type_closure:
		o.value.closure.name = (dl_ptrdiff_t) num;
		o.value.closure.bytecode = HP(p);
		o.value.closure.upvalue_array = HP(q);
		o.value.closure.arity = (dl_uint8_t) ar;
		o.value.closure.variadic = (ar >> 8) & 1;
		break;
	case duckVM_object_type_vector:
		o.value.vector.internal_vector = HP(p);
		o.value.vector.offset = (dl_ptrdiff_t) off;
		break;
	case duckVM_object_type_type: o.value.type = num; break;
	case duckVM_object_type_composite: o.value.composite = HP(p); break;
	case duckVM_object_type_user: o.value.user.data = dl_null; break;
	case duckVM_object_type_cons: o.value.cons.car = HP(p); o.value.cons.cdr = HP(q); break;
	case duckVM_object_type_internalComposite:
		o.value.internalComposite.type = num;
		o.value.internalComposite.value = HP(p);
		o.value.internalComposite.function = HP(q);
		break;
	default: break;
	}
	return o;
}
#define IN_OBJ(o, id, tlo, thi) do { \
	u64 t_, num_, p_, q_, off_, len_, ar_; \
	IN_SEL(t_, id ".type", tlo, thi); IN_U(num_, id ".num"); \
	IN_SEL(p_, id ".p", 0, NH); IN_SEL(q_, id ".q", 0, NH); \
	IN_SEL(off_, id ".off", 0, 1UL << 40); IN_SEL(len_, id ".len", 0, 1UL << 40); IN_U(ar_, id ".ar"); \
	(o) = build_obj(t_, num_, p_, q_, off_, len_, ar_); } while (0)
#define IN_VALUE(o, id) IN_OBJ(o, id, duckVM_object_type_bool, duckVM_object_type_user)

/* Same abstract value: equal type and equal fields of that type. */
static int same_double(double a, double b) { u64d_t x, y; x.d = a; y.d = b; return x.u == y.u; }
static int obj_eq_(const duckVM_object_t *a, const duckVM_object_t *b) {
	if (a->type != b->type) return 0;
	switch (a->type) {
	case duckVM_object_type_bool: return a->value.boolean == b->value.boolean;
	case duckVM_object_type_integer: return a->value.integer == b->value.integer;
	case duckVM_object_type_float: return same_double(a->value.floatingPoint, b->value.floatingPoint);
	case duckVM_object_type_string:
		return a->value.string.internalString == b->value.string.internalString
			&& a->value.string.offset == b->value.string.offset && a->value.string.length == b->value.string.length;
	case duckVM_object_type_list: return a->value.list == b->value.list;
	case duckVM_object_type_symbol:
		return a->value.symbol.id == b->value.symbol.id && a->value.symbol.internalString == b->value.symbol.internalString;
	case duckVM_object_type_function: return a->value.function.callback == b->value.function.callback;
	case duckVM_object_type_closure:
		return a->value.closure.name == b->value.closure.name && a->value.closure.bytecode == b->value.closure.bytecode
			&& a->value.closure.upvalue_array == b->value.closure.upvalue_array
			&& a->value.closure.arity == b->value.closure.arity && a->value.closure.variadic == b->value.closure.variadic;
	case duckVM_object_type_vector:
		return a->value.vector.internal_vector == b->value.vector.internal_vector
			&& a->value.vector.offset == b->value.vector.offset;
	case duckVM_object_type_type: return a->value.type == b->value.type;
	case duckVM_object_type_composite: return a->value.composite == b->value.composite;
	case duckVM_object_type_user:
		return a->value.user.data == b->value.user.data && a->value.user.destructor == b->value.user.destructor
			&& a->value.user.marker == b->value.user.marker;
	case duckVM_object_type_cons: return a->value.cons.car == b->value.cons.car && a->value.cons.cdr == b->value.cons.cdr;
	case duckVM_object_type_upvalue:
		return a->value.upvalue.type == b->value.upvalue.type
			&& a->value.upvalue.value.heap_object == b->value.upvalue.value.heap_object;
	case duckVM_object_type_upvalueArray:
		return a->value.upvalue_array.upvalues == b->value.upvalue_array.upvalues
			&& a->value.upvalue_array.length == b->value.upvalue_array.length;
	case duckVM_object_type_internalVector:
		return a->value.internal_vector.values == b->value.internal_vector.values
			&& a->value.internal_vector.length == b->value.internal_vector.length
			&& a->value.internal_vector.initialized == b->value.internal_vector.initialized;
	case duckVM_object_type_bytecode:
		return a->value.bytecode.bytecode == b->value.bytecode.bytecode
			&& a->value.bytecode.bytecode_length == b->value.bytecode.bytecode_length;
	case duckVM_object_type_internalComposite:
		return a->value.internalComposite.type == b->value.internalComposite.type
			&& a->value.internalComposite.value == b->value.internalComposite.value
			&& a->value.internalComposite.function == b->value.internalComposite.function;
	case duckVM_object_type_internalString:
		return a->value.internalString.value == b->value.internalString.value
			&& a->value.internalString.value_length == b->value.internalString.value_length;
	default: return 1;
	}
}

static int obj_eq(duckVM_object_t a, duckVM_object_t b) { return obj_eq_(&a, &b); }

/* ---- machine state before / after a step ---------------------------------------------------- */
#ifndef N_MAX
#if defined(SMALL) || NATIVE
#define N_MAX 70000
#else
#define N_MAX (1UL << 32)
#endif
#endif
#ifdef __CPROVER__
#define BCN 32   /* small enough for constant propagation per element; operands use at most 13 bytes */
#else
#define BCN 96
#endif
static dl_uint8_t bc[BCN];
static duckVM_object_t bc_object;
static dl_uint8_t *ip_after;
static duckVM_halt_mode_t halt_after;
static duckVM_object_t G_before; static u64 gi;   /* arbitrary stack slot: frame condition */
static duckVM_object_t *GU_before;
static duckVM_object_t H_before[NH + 1];
static u64 call_len0, upcall_len0, globals_len0;
static u64 nextType0;
#if NATIVE
static int native_unrooted;   /* candidate objects are only reachable through the stack: collections may take them */
#endif

static u64 fixed_layout;   /* nonzero: stack depth is this constant (value proofs, see p_arith.c) */
static void vm_setup(void) {
	u64 cap, ccap;
	if (fixed_layout) IN_FIX(n0, "n", fixed_layout); else IN_USUAL(n0, "n", 0, 40, N_MAX);
#if NATIVE
	{
		u64 cells, k;
		static dl_memoryAllocation_t ma;
		g_ma = ma;
		cells = 12 - rt_in("native.used", 0, 12);
		if (duckVM_init(&vm, &g_ma, NH + 12)) longjmp(rt_jmp, 3);
		/* candidate objects live in the collected heap; 0..12 free cells make collections happen */
		for (k = 0; k < NH; k++) HP_[k] = vm.gclist.freeObjects[--vm.gclist.freeObjects_length];
		while (vm.gclist.freeObjects_length > cells) --vm.gclist.freeObjects_length;
		native_unrooted = (int) rt_in("native.unrooted", 0, 1);
		for (k = 0; k < NH && !native_unrooted; k++) {
			dl_ptrdiff_t key = 1000003 + (dl_ptrdiff_t) k;
			dl_array_pushElement(&vm.globals, &HP_[k]);
			dl_array_pushElement(&vm.globals_map, &key);
		}
		dl_array_quit(&vm.upvalue_array_call_stack);
		dl_array_init(&vm.upvalue_array_call_stack, &g_ma, sizeof(duckVM_upvalueArray_t), dl_array_strategy_double);
		for (k = 0; k < n0; k++) {
			duckVM_object_t nil = {0};
			nil.type = duckVM_object_type_integer; nil.value.integer = (long) k * 1000003;
			dl_array_pushElement(&vm.stack, &nil);
			dl_array_pushElement(&vm.upvalue_stack, dl_null);
		}
		IN_SEL(c0, "c0", 0, 4);
		for (k = 0; k < c0; k++) {
			duckVM_callFrame_t f; f.ip = bc + 1; f.bytecode = dl_null;
			dl_array_pushElement(&vm.call_stack, &f);
		}
		for (k = 0; k < c0 + 1; k++) { duckVM_upvalueArray_t u = {0}; dl_array_pushElement(&vm.upvalue_array_call_stack, &u); }
		(void) cap; (void) ccap;
	}
#else
	{
		H0_ = nondet_object(); H1_ = nondet_object(); H2_ = nondet_object();
		H3_ = nondet_object(); H4_ = nondet_object(); H5_ = nondet_object();
		vm.memoryAllocation = &g_ma;
		vm.gclist.duckVM = &vm;
		vm.gclist.memoryAllocation = &g_ma;
		vm.stack.element_size = sizeof(duckVM_object_t);
		vm.stack.elements_length = n0;
		vm.upvalue_stack.element_size = sizeof(objptr_t);
		vm.upvalue_stack.elements_length = n0;
		if (fixed_layout) IN_FIX(c0, "c0", 3); else IN_SEL(c0, "c0", 0, SMALL_OR(4, N_MAX));
		vm.call_stack.element_size = sizeof(duckVM_callFrame_t);
		vm.call_stack.elements_length = c0;
		vm.upvalue_array_call_stack.element_size = sizeof(duckVM_upvalueArray_t);
		vm.upvalue_array_call_stack.elements_length = c0 + 1;
		vm.errors.element_size = 1;
		vm.errors.elements_length = nondet_u64();
		vm.globals.element_size = sizeof(objptr_t);
		vm.globals_map.element_size = sizeof(dl_ptrdiff_t);
		vm.globals.elements_length = vm.globals_map.elements_length = nondet_u64();
#define X(k) CELL##k = nondet_object(); UCELL##k = nondet_objptr();
		CELLS(X)
#undef X
#define X(k) FCELL##k = nondet_frame(); ACELL##k = nondet_upvalueArray();
		CCELLS(X)
#undef X
		(void) cap; (void) ccap;
	}
#endif
	IN_U(vm.nextUserType, "nextType");
	if (fixed_layout) { IN_FIX(gi, "gi", 1000000); IN_FIX(gc_i, "gci", 0); }
	else { IN_USUAL(gi, "gi", 0, NATIVE ? n0 + 2 : 0, N_MAX); IN_SEL(gc_i, "gci", 0, NATIVE ? 4 : SMALL_OR(4, N_MAX)); }
	{ int k; for (k = 0; k < NFP; k++) FP[k] = ~0UL; }
	FP[0] = gi;
	FP[NFP - 1] = n0; FP[NFP - 2] = n0 + 1; FP[NFP - 3] = n0 - 1;
#if !NATIVE
	CFP[0] = gc_i; CFP[1] = c0; CFP[2] = c0 - 1;
#endif
	bc_object.type = duckVM_object_type_bytecode;
	bc_object.value.bytecode.bytecode = bc;
	bc_object.value.bytecode.bytecode_length = sizeof bc;
}

/* Distance operand of width w at bc[pos], big-endian. */
static u64 operand(int pos, int w) {
	u64 v = 0;
	int k;
	for (k = 0; k < w; k++) v = (v << 8) | bc[pos + k];
	return v;
}
static i64 operand_signed(int pos, int w) {
	u64 v = operand(pos, w);
	if (w == 1) return (signed char) v;
	if (w == 2) return (short) v;
	return (int) v;
}
#define IN_BYTES(n_) do { \
	if ((n_) > 0) IN_SEL(bc[1], "bc1", 0, 255); if ((n_) > 1) IN_SEL(bc[2], "bc2", 0, 255); if ((n_) > 2) IN_SEL(bc[3], "bc3", 0, 255); \
	if ((n_) > 3) IN_SEL(bc[4], "bc4", 0, 255); if ((n_) > 4) IN_SEL(bc[5], "bc5", 0, 255); if ((n_) > 5) IN_SEL(bc[6], "bc6", 0, 255); \
	if ((n_) > 6) IN_SEL(bc[7], "bc7", 0, 255); if ((n_) > 7) IN_SEL(bc[8], "bc8", 0, 255); if ((n_) > 8) IN_SEL(bc[9], "bc9", 0, 255); \
	if ((n_) > 9) IN_SEL(bc[10], "bc10", 0, 255); if ((n_) > 10) IN_SEL(bc[11], "bc11", 0, 255); if ((n_) > 11) IN_SEL(bc[12], "bc12", 0, 255); \
	} while (0)
/* Stack-distance operand k of an instruction whose operands are w bytes each.  Natively most random
 * operands are aimed at the stack. */
#if NATIVE
static u64 in_distance(const char *id, int pos, int w) {
	u64 v, max = (1UL << (8 * w)) - 1;
	v = rt_usual(id, 0, n0 + 20 < max ? n0 + 20 : max, max);
	int k;
	for (k = w - 1; k >= 0; k--) { bc[pos + k] = v & 255; v >>= 8; }
	return operand(pos, w);
}
#define IN_DIST(d, id, pos, w) ((d) = in_distance(id, pos, w))
#else
#define IN_DIST(d, id, pos, w) do { u64 v_; int k_; IN_SEL(v_, id, 0, (1UL << (8 * (w))) - 1); (d) = v_; \
	for (k_ = (w) - 1; k_ >= 0; k_--) { bc[(pos) + k_] = v_ & 255; v_ >>= 8; } } while (0)
#endif
static int dist_ok(u64 d) { return d > 0 && d <= n0; }

static void vm_before(void) {
	int k;
	if (gi < n0) { G_before = STK_get(gi); GU_before = UPS_get(gi); }
	for (k = 0; k < NH; k++) H_before[k] = *heap_obj(k);
	call_len0 = vm.call_stack.elements_length;
	upcall_len0 = vm.upvalue_array_call_stack.elements_length;
	globals_len0 = vm.globals.elements_length;
	nextType0 = vm.nextUserType;
}
static dl_error_t vm_step(void) {
	dl_error_t e;
	ip_after = bc;
	halt_after = duckVM_halt_mode_run;
	e = duckVM_executeInstruction(&vm, &bc_object, &ip_after, &halt_after);
#if NATIVE
	/* free cells have no contents: make a dangling reference show */
	{
		u64 k;
		for (k = 0; k < vm.gclist.freeObjects_length; k++) {
			memset(vm.gclist.freeObjects[k], 0x5a, sizeof(duckVM_object_t));
			vm.gclist.freeObjects[k]->type = duckVM_object_type_none;
		}
	}
#endif
	return e;
}
/* Frame: everything below the old top is untouched (checked at an arbitrary slot), call stacks, globals and
 * type counter unchanged, data and upvalue stacks in lock step. */
static void frame_slots(void) {
	if (gi < n0 && vm.stack.elements_length > gi) {
		CHECK("frame: other stack slots unchanged", obj_eq(STK_get(gi), G_before));
		CHECK("frame: other captured-variable slots unchanged", UPS_get(gi) == GU_before);
	}
}
static void frame_slots_except(u64 index) {
	if (gi < n0 && vm.stack.elements_length > gi) {
		if (gi != index) CHECK("frame: other stack slots unchanged", obj_eq(STK_get(gi), G_before));
		CHECK("frame: other captured-variable slots unchanged", UPS_get(gi) == GU_before);
	}
}
static void frame_heap(int except) {
	int k;
#if NATIVE
	if (native_unrooted) return;
#endif
	for (k = 0; k < NH; k++)
		if (k + 1 != except) CHECK("frame: other heap objects unchanged", obj_eq(*heap_obj(k), H_before[k]));
}
static void frame_rest(void) {
	CHECK("frame: call stack depth unchanged", vm.call_stack.elements_length == call_len0);
	CHECK("frame: upvalue call stack depth unchanged", vm.upvalue_array_call_stack.elements_length == upcall_len0);
	CHECK("frame: global table size unchanged", vm.globals.elements_length == globals_len0);
	CHECK("frame: the executing bytecode stays current", vm.currentBytecode == &bc_object);
	CHECK("frame: keeps running", halt_after == duckVM_halt_mode_run);
}
static void frame_lockstep(void) {
	CHECK("data stack and captured-variable stack have the same depth", vm.stack.elements_length == vm.upvalue_stack.elements_length || alloc_failed);
}
/* A pushed result: one new slot, no captured variable attached. */
static void pushed_one(void) {
	CHECK("exactly one value pushed", vm.stack.elements_length == n0 + 1);
	CHECK("captured-variable stack grows with it", vm.upvalue_stack.elements_length == n0 + 1);
	if (vm.upvalue_stack.elements_length == n0 + 1) CHECK("new slot is not captured", UPS_get(n0) == dl_null);
}
/* Natively: random content for the bytes after position pos (literal text, following code). */
static void in_tail(int pos, int n) {
#if NATIVE
	int k;
	for (k = 0; k < n && pos + k < BCN; k++) { char id[16]; sprintf(id, "tail%d", k); bc[pos + k] = (dl_uint8_t) rt_in(id, 0, 255); }
#else
	(void) pos; (void) n;
#endif
}
/* The heap cell holds an own copy of the len bytes at src: by the heap allocator's contract this is so exactly
 * when these were handed to it. */
static int is_text_copy(duckVM_object_t *cell, dl_uint8_t *src, u64 len) {
#if NATIVE
	return cell && cell->type == duckVM_object_type_internalString && cell->value.internalString.value_length == len
		&& (len == 0 || (cell->value.internalString.value != src && !memcmp(cell->value.internalString.value, src, len)));
#else
	return cell == new_obj(0) && new_n == 1 && new_in0.type == duckVM_object_type_internalString
		&& new_in0.value.internalString.value == src && new_in0.value.internalString.value_length == len;
#endif
}
static dl_error_t callback_stub(duckVM_t *v) { (void) v; return dl_error_ok; }
#endif
