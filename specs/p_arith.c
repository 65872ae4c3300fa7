/* Contract of + - * / on the interpreter's real instruction step. */
#include "vm.h"

enum { OP_ADD, OP_SUB, OP_MUL, OP_DIV };

static double as_double(const duckVM_object_t *o) {
	return o->type == duckVM_object_type_float ? o->value.floatingPoint
		: o->type == duckVM_object_type_integer ? (double) o->value.integer : (double) o->value.boolean;
}
static i64 as_int(const duckVM_object_t *o) {
	return o->type == duckVM_object_type_integer ? o->value.integer : (i64) o->value.boolean;
}
static int is_num(const duckVM_object_t *o) {
	return o->type == duckVM_object_type_float || o->type == duckVM_object_type_integer || o->type == duckVM_object_type_bool;
}
/* 1 = the operation is defined */
static int arith_defined(int op, const duckVM_object_t *a, const duckVM_object_t *b) {
	if (!is_num(a) || !is_num(b)) return 0;
	if (op == OP_DIV && a->type != duckVM_object_type_float && b->type != duckVM_object_type_float) {
		if (as_int(b) == 0) return 0;
		if (as_int(b) == -1 && as_int(a) == (i64) (1UL << 63)) return 0;
	}
	return 1;
}
static int arith_result_ok(int op, const duckVM_object_t *a, const duckVM_object_t *b, const duckVM_object_t *r) {
	if (a->type == duckVM_object_type_float || b->type == duckVM_object_type_float) {
		double x = as_double(a), y = as_double(b), z;
		if (r->type != duckVM_object_type_float) return 0;
		z = op == OP_ADD ? x + y : op == OP_SUB ? x - y : op == OP_MUL ? x * y : x / y;
		return r->value.floatingPoint == z || (r->value.floatingPoint != r->value.floatingPoint && z != z);
	}
	{
		u64 x = (u64) as_int(a), y = (u64) as_int(b), z;
		z = op == OP_ADD ? x + y : op == OP_SUB ? x - y : op == OP_MUL ? x * y : (u64) ((i64) x / (i64) y);
		if (a->type == duckVM_object_type_bool && b->type == duckVM_object_type_bool)
			return r->type == duckVM_object_type_bool && !r->value.boolean == (z == 0);
		return r->type == duckVM_object_type_integer && (u64) r->value.integer == z;
	}
}

/* Two families of harness:
 *  L_*  every stack depth, every pair of distances, every operand type; operand values are arbitrary for
 *       integer/bool + and -, and representative where both circuits contain a multiplier, divider or
 *       floating-point unit.
 *  V_*  every operand value of one pair of types, in one stack layout.  */
static int small_value(int op, const duckVM_object_t *o) {
	if (o->type == duckVM_object_type_float) return o->value.floatingPoint == 0.0 || o->value.floatingPoint == 1.5 || o->value.floatingPoint == -3.0;
	if (o->type == duckVM_object_type_integer && op >= OP_MUL) return o->value.integer >= -4 && o->value.integer <= 3;
	return 1;
}
static int expect_undefined;
static void arith_check(int op, int w, u64 d1, u64 d2, duckVM_object_t a, duckVM_object_t b, int in_range) {
	dl_error_t e;
	if (in_range) {
		FP[1] = n0 - d1; FP[2] = n0 - d2;
		STK_set(n0 - d1, a);
		STK_set(n0 - d2, b);
		if (d1 == d2) a = b;
	}
	vm_before();
	e = vm_step();
	frame_lockstep();
	frame_slots();
	frame_heap(0);
	frame_rest();
	if (in_range && arith_defined(op, &a, &b)) {
		CHECK("defined operation succeeds (unless out of memory)", !e || alloc_failed || NATIVE_OOM);
		if (!e) {
			pushed_one();
			{ duckVM_object_t r = STK_get(n0); CHECK("result has the right type and value", arith_result_ok(op, &a, &b, &r)); }
			CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 2 * w);
#ifdef VALUES
			if (!expect_undefined)
#endif
			REACH("success");
		}
	}
	else {
		CHECK("undefined operation is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
#ifdef VALUES
		if (expect_undefined)
#endif
		REACH("error");
	}
}
#ifdef VALUES
static duckVM_object_t const_type(int t, u64 num) {
	duckVM_object_t o = {0};
	o.type = t;
	if (t == duckVM_object_type_float) { u64d_t c; c.u = num; o.value.floatingPoint = c.d; }
	else if (t == duckVM_object_type_integer) o.value.integer = (dl_ptrdiff_t) num;
	else o.value.boolean = num & 1;
	return o;
}
static void arith_values(int op, int opcode, int w, int ta, int tb, int defined) {
	u64 x, y;
	duckVM_object_t a, b;
	fixed_layout = 5;
	vm_setup();
	bc[0] = (dl_uint8_t) opcode;
	bc[w] = 3;
	bc[2 * w] = 2;
	IN_U(x, "x"); IN_U(y, "y");
	a = const_type(ta, x); b = const_type(tb, y);
	ASSUME(arith_defined(op, &a, &b) == defined);
	arith_check(op, w, 3, 2, a, b, 1);
}
#define VT(name, OP, w, bits, i, j, ti, tj) HARNESS(V_##name##bits##_##i##j) { arith_values(OP, duckLisp_instruction_##name##bits, w, duckVM_object_type_##ti, duckVM_object_type_##tj, 1); }
#define VALUES_OF(name, OP, w, bits) \
	VT(name, OP, w, bits, b, b, bool, bool) VT(name, OP, w, bits, b, i, bool, integer) VT(name, OP, w, bits, b, f, bool, float) \
	VT(name, OP, w, bits, i, b, integer, bool) VT(name, OP, w, bits, i, i, integer, integer) VT(name, OP, w, bits, i, f, integer, float) \
	VT(name, OP, w, bits, f, b, float, bool) VT(name, OP, w, bits, f, i, float, integer) VT(name, OP, w, bits, f, f, float, float)
#define OPS(name, OP) VALUES_OF(name, OP, 1, 8) VALUES_OF(name, OP, 2, 16) VALUES_OF(name, OP, 4, 32)
#else
static void arith(int op, int opcode, int w) {
	duckVM_object_t a, b;
	u64 d1, d2;
	vm_setup();
	bc[0] = (dl_uint8_t) opcode;
	IN_DIST(d1, "d1", 1, w);
	IN_DIST(d2, "d2", 1 + w, w);
	IN_VALUE(a, "A");
	IN_VALUE(b, "B");
#ifdef __CPROVER__
	ASSUME(small_value(op, &a) && small_value(op, &b));
#endif
	arith_check(op, w, d1, d2, a, b, dist_ok(d1) && dist_ok(d2));
}
#define OPS(name, OP) \
	HARNESS(L_##name##8) { arith(OP, duckLisp_instruction_##name##8, 1); } \
	HARNESS(L_##name##16) { arith(OP, duckLisp_instruction_##name##16, 2); } \
	HARNESS(L_##name##32) { arith(OP, duckLisp_instruction_##name##32, 4); }
#endif
OPS(add, OP_ADD)
OPS(sub, OP_SUB)
OPS(mul, OP_MUL)
OPS(div, OP_DIV)
#ifdef VALUES
#define UT(w, bits, i, j, ti, tj) HARNESS(U_div##bits##_##i##j) { expect_undefined = 1; arith_values(OP_DIV, duckLisp_instruction_div##bits, w, duckVM_object_type_##ti, duckVM_object_type_##tj, 0); }
#define UTS(w, bits) UT(w, bits, i, i, integer, integer) UT(w, bits, i, b, integer, bool) UT(w, bits, b, i, bool, integer) UT(w, bits, b, b, bool, bool)
UTS(1, 8) UTS(2, 16) UTS(4, 32)
#endif
