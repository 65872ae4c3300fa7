/* Contracts of the literal pushes and of pushIndex, move and pop on the interpreter's real instruction step. */
#include "vm.h"

static void begin(int opcode) { vm_setup(); bc[0] = (dl_uint8_t) opcode; }
static void frame_all(void) { frame_lockstep(); frame_slots(); frame_heap(0); frame_rest(); }

enum { LIT_FALSE, LIT_TRUE, LIT_NIL, LIT_INT, LIT_DOUBLE, LIT_BARESYM };
static void literal(int kind, int opcode, int w) {
	u64 v = 0;
	dl_error_t e;
	begin(opcode);
	if (kind == LIT_DOUBLE) IN_BYTES(8);
	else if (w) IN_DIST(v, "v", 1, w);
#if NATIVE
	if (w && kind != LIT_DOUBLE) IN_BYTES(w);
#endif
	v = operand(1, w);
	vm_before();
	e = vm_step();
	frame_all();
	CHECK("pushing a literal succeeds (unless out of memory)", !e || alloc_failed);
	if (!e) {
		duckVM_object_t r;
		pushed_one();
		r = STK_get(n0);
		switch (kind) {
		case LIT_FALSE: CHECK("literal false", r.type == duckVM_object_type_bool && !r.value.boolean); break;
		case LIT_TRUE: CHECK("literal true", r.type == duckVM_object_type_bool && r.value.boolean); break;
		case LIT_NIL: CHECK("literal nil", r.type == duckVM_object_type_list && !r.value.list); break;
		case LIT_INT: CHECK("literal integer is the sign-extended big-endian operand", r.type == duckVM_object_type_integer && r.value.integer == operand_signed(1, w)); break;
		case LIT_DOUBLE: {
			u64d_t c; c.d = r.value.floatingPoint;
			CHECK("literal double is the big-endian bit pattern", r.type == duckVM_object_type_float && c.u == v); break; }
		case LIT_BARESYM: CHECK("bare symbol has the encoded identity and no name",
			r.type == duckVM_object_type_symbol && r.value.symbol.id == v && !r.value.symbol.internalString); break;
		}
		CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
		REACH("success");
	}
}
static void text(int symbol, int opcode, int w) {
	u64 id = 0, len;
	int at = 1;
	dl_error_t e;
	begin(opcode);
	if (symbol) { IN_DIST(id, "id", 1, w); at += w; }
	IN_DIST(len, "len", at, w);
#if NATIVE
	in_tail(at + w, 70);
	if (len > 60) { ASSUME(0); }
#endif
	vm_before();
	e = vm_step();
	frame_all();
	CHECK("pushing a literal succeeds (unless out of memory)", !e || alloc_failed);
	if (!e) {
		duckVM_object_t r;
		pushed_one();
		r = STK_get(n0);
		if (symbol) {
			CHECK("symbol has the encoded identity", r.type == duckVM_object_type_symbol && r.value.symbol.id == id);
			CHECK("symbol has its own copy of the encoded name", is_text_copy(r.value.symbol.internalString, bc + at + w, len));
		}
		else {
			CHECK("string shows exactly the literal", r.type == duckVM_object_type_string && r.value.string.offset == 0 && r.value.string.length == len);
			CHECK("string has its own copy of the literal's bytes", is_text_copy(r.value.string.internalString, bc + at + w, len));
		}
		CHECK("instruction pointer advances past the literal", ip_after == bc + at + w + len);
		REACH("success");
	}
}
static void pushIndex(int opcode, int w) {
	duckVM_object_t a;
	u64 d;
	dl_error_t e;
	begin(opcode);
	IN_DIST(d, "d1", 1, w);
	IN_VALUE(a, "A");
	if (dist_ok(d)) { FP[1] = n0 - d; STK_set(n0 - d, a); }
	vm_before();
	e = vm_step();
	frame_all();
	if (dist_ok(d)) {
		CHECK("copying a slot succeeds (unless out of memory)", !e || alloc_failed);
		if (!e) {
			pushed_one();
			CHECK("the copy equals the addressed slot", obj_eq(STK_get(n0), a));
			CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
			REACH("success");
		}
	}
	else {
		CHECK("a slot outside the stack is an error", e != dl_error_ok);
		CHECK("failed copy pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
static void move(int opcode, int w) {
	duckVM_object_t a;
	u64 d1, d2;
	dl_error_t e;
	begin(opcode);
	IN_DIST(d1, "d1", 1, w);
	IN_DIST(d2, "d2", 1 + w, w);
	IN_VALUE(a, "A");
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, a); }
	if (dist_ok(d2)) FP[2] = n0 - d2;
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_heap(0); frame_rest();
	CHECK("a move changes no depth", vm.stack.elements_length == n0);
	if (dist_ok(d1) && dist_ok(d2)) {
		CHECK("moving between stack slots succeeds", !e);
		CHECK("destination holds the source's value", obj_eq(STK_get(n0 - d2), a));
		CHECK("source still holds its value", obj_eq(STK_get(n0 - d1), a));
		frame_slots_except(n0 - d2);
		CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 2 * w);
		REACH("success");
	}
	else {
		CHECK("a slot outside the stack is an error", e != dl_error_ok);
		frame_slots();
		REACH("error");
	}
}
static void pop(int opcode, int w) {
	u64 d;
	dl_error_t e;
	begin(opcode);
	IN_DIST(d, "d1", 1, w);
	vm_before();
	e = vm_step();
	frame_all();
	if (d <= n0) {
		CHECK("dropping existing slots succeeds", !e);
		CHECK("exactly the given number of slots is dropped", vm.stack.elements_length == n0 - d && vm.upvalue_stack.elements_length == n0 - d);
		CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
		REACH("success");
	}
	else {
		CHECK("dropping more than there is is an error", e != dl_error_ok);
		CHECK("a failed pop drops nothing", vm.stack.elements_length == n0 && vm.upvalue_stack.elements_length == n0);
		REACH("error");
	}
}
HARNESS(H_false) { literal(LIT_FALSE, duckLisp_instruction_pushBooleanFalse, 0); }
HARNESS(H_true) { literal(LIT_TRUE, duckLisp_instruction_pushBooleanTrue, 0); }
HARNESS(H_nil) { literal(LIT_NIL, duckLisp_instruction_nil, 0); }
HARNESS(H_double) { literal(LIT_DOUBLE, duckLisp_instruction_pushDoubleFloat, 8); }
#define OPS(name, op, F, ...) \
	HARNESS(H_##name##8) { F(__VA_ARGS__ duckLisp_instruction_##op##8, 1); } \
	HARNESS(H_##name##16) { F(__VA_ARGS__ duckLisp_instruction_##op##16, 2); } \
	HARNESS(H_##name##32) { F(__VA_ARGS__ duckLisp_instruction_##op##32, 4); }
#define C_ ,
OPS(integer, pushInteger, literal, LIT_INT C_)
OPS(baresym, pushStrippedSymbol, literal, LIT_BARESYM C_)
OPS(symbol, pushSymbol, text, 1 C_)
OPS(string, pushString, text, 0 C_)
OPS(index, pushIndex, pushIndex, )
OPS(move, move, move, )
OPS(pop, pop, pop, )
