/* Contracts of >, <, = and not on the interpreter's real instruction step. */
#include "vm.h"

enum { OP_GT, OP_LT, OP_EQ };
static double as_double(const duckVM_object_t *o) {
	return o->type == duckVM_object_type_float ? o->value.floatingPoint
		: o->type == duckVM_object_type_integer ? (double) o->value.integer : (double) o->value.boolean;
}
static i64 as_int(const duckVM_object_t *o) {
	return o->type == duckVM_object_type_integer ? o->value.integer : (i64) o->value.boolean;
}
static int is_num(const duckVM_object_t *o) {
	return o->type == duckVM_object_type_float || o->type == duckVM_object_type_integer || o->type == duckVM_object_type_bool;
}
static int cmp_defined(int op, const duckVM_object_t *a, const duckVM_object_t *b) {
	if (op != OP_EQ) return is_num(a) && is_num(b);
	return is_num(a) || a->type == duckVM_object_type_list || a->type == duckVM_object_type_symbol || a->type == duckVM_object_type_string
		|| a->type == duckVM_object_type_vector || a->type == duckVM_object_type_type;
}
#ifdef __CPROVER__
/* contract of dl_string_compare: decides whether the two byte ranges are equal (proved in the text property) */
static const dl_uint8_t *sc_a, *sc_b;
static u64 sc_al, sc_bl, sc_calls;
static dl_bool_t sc_result;
void c_string_compare(dl_bool_t *result, const dl_uint8_t *s1, const dl_size_t l1, const dl_uint8_t *s2, const dl_size_t l2) {
	sc_a = s1; sc_al = l1; sc_b = s2; sc_bl = l2; sc_calls++;
	sc_result = nondet_u64() & 1;
	if (l1 != l2) sc_result = 0;
	if (l1 == 0 && l2 == 0) sc_result = 1;
	*result = sc_result;
}
#endif
static dl_uint8_t sbuf[NH + 1][64];
static u64 slen[NH + 1];
static void setup_strings(void) {
#if NATIVE
	int k, j;
	for (k = 0; k < NH; k++) {
		char id[16];
		sprintf(id, "S%d.len", k); slen[k] = rt_in(id, 0, 6);
		for (j = 0; j < 6; j++) { sprintf(id, "S%d.%d", k, j); sbuf[k][j] = 'a' + rt_in(id, 0, 1); }
		HP_[k]->type = duckVM_object_type_internalString;
		HP_[k]->value.internalString.value = malloc(slen[k] ? slen[k] : 1);
		memcpy(HP_[k]->value.internalString.value, sbuf[k], slen[k]);
		HP_[k]->value.internalString.value_length = slen[k];
	}
#else
#define S1(k, id) IN_SEL(slen[k], id, 0, SMALL_OR(6, 1UL << 40)); H##k##_.type = duckVM_object_type_internalString; \
	H##k##_.value.internalString.value = sbuf[k]; H##k##_.value.internalString.value_length = slen[k];
	S1(0, "S0.len") S1(1, "S1.len")
#endif
}
static int string_ok(const duckVM_object_t *o) {
	if (o->type != duckVM_object_type_string) return 1;
	if (!o->value.string.internalString) return o->value.string.offset == 0 && o->value.string.length == 0;
	return o->value.string.internalString->type == duckVM_object_type_internalString
		&& o->value.string.length <= o->value.string.internalString->value.internalString.value_length
		&& o->value.string.offset >= 0 && (u64) o->value.string.offset <= o->value.string.length;
}
static int strings_equal(const duckVM_object_t *a, const duckVM_object_t *b) {
	u64 la = a->value.string.length - a->value.string.offset, lb = b->value.string.length - b->value.string.offset;
	if (la != lb) return 0;
	if (la == 0) return 1;
#if NATIVE
	return !memcmp(a->value.string.internalString->value.internalString.value + a->value.string.offset,
		b->value.string.internalString->value.internalString.value + b->value.string.offset, la);
#else
	{
		const dl_uint8_t *pa = a->value.string.internalString->value.internalString.value + a->value.string.offset;
		const dl_uint8_t *pb = b->value.string.internalString->value.internalString.value + b->value.string.offset;
		if (!(sc_calls == 1 && sc_al == la && sc_bl == la
			&& ((sc_a == pa && sc_b == pb) || (sc_a == pb && sc_b == pa)))) return -1;
		return sc_result;
	}
#endif
}
static int cmp_expected(int op, const duckVM_object_t *a, const duckVM_object_t *b) {
	if (op != OP_EQ) {
		if (a->type == duckVM_object_type_float || b->type == duckVM_object_type_float) {
			double x = as_double(a), y = as_double(b);
			return op == OP_GT ? x > y : x < y;
		}
		return op == OP_GT ? as_int(a) > as_int(b) : as_int(a) < as_int(b);
	}
	if (a->type != b->type) return 0;
	switch (a->type) {
	case duckVM_object_type_bool: return a->value.boolean == b->value.boolean;
	case duckVM_object_type_integer: return a->value.integer == b->value.integer;
	case duckVM_object_type_float: return a->value.floatingPoint == b->value.floatingPoint;
	case duckVM_object_type_list: return a->value.list == b->value.list;
	case duckVM_object_type_symbol: return a->value.symbol.id == b->value.symbol.id;
	case duckVM_object_type_vector: return a->value.vector.internal_vector == b->value.vector.internal_vector && a->value.vector.offset == b->value.vector.offset;
	case duckVM_object_type_type: return a->value.type == b->value.type;
	case duckVM_object_type_string: return strings_equal(a, b);
	default: return -1;
	}
}
static void cmp(int op, int opcode, int w) {
	duckVM_object_t a, b;
	u64 d1, d2;
	dl_error_t e;
	int in_range;
	vm_setup();
	if (op == OP_EQ) setup_strings();
	bc[0] = (dl_uint8_t) opcode;
	IN_DIST(d1, "d1", 1, w);
	IN_DIST(d2, "d2", 1 + w, w);
	in_range = dist_ok(d1) && dist_ok(d2);
	IN_VALUE(a, "A");
	IN_VALUE(b, "B");
	if (op == OP_EQ) ASSUME(string_ok(&a) && string_ok(&b));
	if (in_range) {
		FP[1] = n0 - d1; FP[2] = n0 - d2;
		STK_set(n0 - d1, a);
		STK_set(n0 - d2, b);
		if (d1 == d2) a = b;
	}
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap(0); frame_rest();
	if (in_range && cmp_defined(op, &a, &b)) {
		CHECK("defined comparison succeeds (unless out of memory)", !e || alloc_failed);
		if (!e) {
			duckVM_object_t r;
			int x = cmp_expected(op, &a, &b);
			pushed_one();
			r = STK_get(n0);
			CHECK("result is a boolean", r.type == duckVM_object_type_bool);
			CHECK("result is the right truth value", !r.value.boolean == !x && x >= 0);
			CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 2 * w);
			REACH("success");
		}
	}
	else {
		CHECK("undefined comparison is an error", e != dl_error_ok);
		CHECK("failed comparison pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
static void not_(int opcode, int w) {
	duckVM_object_t a;
	u64 d1;
	dl_error_t e;
	int in_range, defined;
	vm_setup();
	bc[0] = (dl_uint8_t) opcode;
	IN_DIST(d1, "d1", 1, w);
	in_range = dist_ok(d1);
	IN_VALUE(a, "A");
	if (in_range) { FP[1] = n0 - d1; STK_set(n0 - d1, a); }
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap(0); frame_rest();
	defined = is_num(&a) || a.type == duckVM_object_type_list || a.type == duckVM_object_type_vector;
	if (in_range && defined) {
		CHECK("defined negation succeeds (unless out of memory)", !e || alloc_failed);
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			if (a.type == duckVM_object_type_integer)
				CHECK("negation of an integer is integer 1 for 0 and 0 otherwise", r.type == a.type && r.value.integer == (a.value.integer == 0));
			else if (a.type == duckVM_object_type_float)
				CHECK("negation of a float is float 1 for 0 and 0 otherwise", r.type == a.type && r.value.floatingPoint == (a.value.floatingPoint == 0.0 ? 1.0 : 0.0));
			else if (a.type == duckVM_object_type_bool)
				CHECK("negation of a boolean", r.type == a.type && !r.value.boolean == !!a.value.boolean);
			else
				CHECK("negation of a sequence is true exactly when it is nil",
					r.type == duckVM_object_type_bool
					&& !!r.value.boolean == (a.type == duckVM_object_type_list ? !a.value.list : !a.value.vector.internal_vector));
			CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
			REACH("success");
		}
	}
	else {
		CHECK("undefined negation is an error", e != dl_error_ok);
		CHECK("failed negation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
#define OPS(name, F, ...) \
	HARNESS(H_##name##8) { F(__VA_ARGS__ duckLisp_instruction_##name##8, 1); } \
	HARNESS(H_##name##16) { F(__VA_ARGS__ duckLisp_instruction_##name##16, 2); } \
	HARNESS(H_##name##32) { F(__VA_ARGS__ duckLisp_instruction_##name##32, 4); }
#define C_ ,
OPS(greater, cmp, OP_GT C_)
OPS(less, cmp, OP_LT C_)
OPS(equal, cmp, OP_EQ C_)
OPS(not, not_, )
