/* Contracts of jump, brnz, return, halt and of undefined opcodes on the interpreter's real instruction step. */
#include "vm.h"

static void begin(int opcode) { vm_setup(); bc[0] = (dl_uint8_t) opcode; }

static void jump(int opcode, int w) {
	u64 v;
	dl_error_t e;
	begin(opcode);
	IN_DIST(v, "v", 1, w);
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap(0); frame_rest();
	CHECK("a jump succeeds", !e);
	CHECK("a jump changes no stack depth", vm.stack.elements_length == n0);
	CHECK("a jump goes to the signed offset from the following instruction", ip_after == bc + 1 + w + operand_signed(1, w));
	REACH("jump");
}
static int truthy(const duckVM_object_t *a) {
	switch (a->type) {
	case duckVM_object_type_bool: return !!a->value.boolean;
	case duckVM_object_type_integer: return a->value.integer != 0;
	case duckVM_object_type_float: return a->value.floatingPoint != 0.0;
	case duckVM_object_type_symbol:
	case duckVM_object_type_closure:
	case duckVM_object_type_function:
	case duckVM_object_type_string: return 1;
	case duckVM_object_type_list: return a->value.list != dl_null;
	case duckVM_object_type_vector:
		return a->value.vector.internal_vector
			&& (u64) a->value.vector.offset < a->value.vector.internal_vector->value.internal_vector.length;
	default: return 0;
	}
}
static void brnz(int opcode, int w) {
	u64 v, pops, vlen;
	duckVM_object_t a;
	int t;
	dl_error_t e;
	begin(opcode);
	IN_DIST(v, "v", 1, w);
	IN_DIST(pops, "pops", 1 + w, 1);
	IN_VALUE(a, "A");
	IN_SEL(vlen, "vlen", 0, 1UL << 40);
	heap_obj(0)->type = duckVM_object_type_internalVector;
	heap_obj(0)->value.internal_vector.length = NATIVE ? vlen % 8 : vlen;
	heap_obj(0)->value.internal_vector.initialized = dl_false;
	heap_obj(0)->value.internal_vector.values = dl_null;
	if (a.type == duckVM_object_type_vector) {
		if (NATIVE) a.value.vector.offset %= 8;
		ASSUME(a.value.vector.internal_vector == dl_null || a.value.vector.internal_vector == heap_obj(0));
		ASSUME((u64) a.value.vector.offset <= heap_obj(0)->value.internal_vector.length);
	}
	if (n0 > 0) STK_set(n0 - 1, a);
	t = truthy(&a);
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap(0); frame_rest();
	if (n0 > 0 && pops <= n0) {
		CHECK("a branch on an existing value succeeds", !e);
		CHECK("a branch drops exactly the given number of slots", vm.stack.elements_length == n0 - pops && vm.upvalue_stack.elements_length == n0 - pops);
		if (t) { CHECK("a true condition jumps to the signed offset", ip_after == bc + 1 + w + operand_signed(1, w)); REACH("taken"); }
		else { CHECK("a false condition falls through", ip_after == bc + 2 + w); REACH("not taken"); }
	}
	else {
		CHECK("branching without the value or dropping too much is an error", e != dl_error_ok);
		CHECK("a failed branch drops nothing", vm.stack.elements_length == n0 && vm.upvalue_stack.elements_length == n0);
		REACH("error");
	}
}
static void ret(int opcode, int w) {
	u64 count = 0;
	duckVM_object_t a;
	duckVM_callFrame_t f;
	duckVM_object_t *frame_bc;
	u64 foff, fb;
	int resumed;
	dl_error_t e;
	begin(opcode);
	if (w) IN_DIST(count, "count", 1, w);
	IN_VALUE(a, "A");
	IN_SEL(foff, "frame.offset", 0, 20);
	IN_SEL(fb, "frame.bytecode", 0, NH);
	frame_bc = HP(fb);
	f.ip = bc + foff; f.bytecode = frame_bc;
	if (w && count <= n0) { FP[1] = n0 - count - 1; FP[2] = n0 - count; }
	if (n0 > 0) STK_set(n0 - 1, a);
	if (c0 > 0) *CALLS(c0 - 1) = f;
	vm_before();
	e = vm_step();
	frame_heap(0);
	CHECK("frame: global table size unchanged", vm.globals.elements_length == globals_len0);
	frame_lockstep();
	if (count > n0) {
		CHECK("dropping more than there is is an error", e != dl_error_ok);
		CHECK("a failed return leaves the stack and the call frames alone", vm.stack.elements_length == n0 && vm.call_stack.elements_length == call_len0);
		REACH("error");
		return;
	}
	CHECK("a return succeeds (unless out of memory)", !e || alloc_failed);
	if (e) return;
	CHECK("a return drops exactly the given number of slots", vm.stack.elements_length == n0 - count);
	if (w && n0 > count) {
		CHECK("the returned value is on top", obj_eq(STK_get(n0 - count - 1), a));
		CHECK("the returned value is not captured", UPS_get(n0 - count - 1) == dl_null);
	}
	if (gi < n0 && gi < vm.stack.elements_length && (!w || gi != n0 - count - 1)) {
		CHECK("frame: other stack slots unchanged", obj_eq(STK_get(gi), G_before));
		CHECK("frame: other captured-variable slots unchanged", UPS_get(gi) == GU_before);
	}
	resumed = c0 > 0;
	if (resumed) {
		CHECK("the caller resumes after its call", ip_after == bc + foff);
		CHECK("the caller's bytecode is current again", vm.currentBytecode == frame_bc);
		CHECK("exactly one call frame is left", vm.call_stack.elements_length == call_len0 - 1 && vm.upvalue_array_call_stack.elements_length == upcall_len0 - 1);
		CHECK("execution continues", halt_after == duckVM_halt_mode_run);
		REACH("returned");
	}
	else {
		CHECK("a return from the outermost level halts", halt_after == duckVM_halt_mode_halt);
		CHECK("no captured-variable context is lost", vm.upvalue_array_call_stack.elements_length == upcall_len0);
		REACH("halted");
	}
}
static void halt(void) {
	dl_error_t e;
	begin(duckLisp_instruction_halt);
	vm_before();
	e = vm_step();
	frame_slots(); frame_heap(0);
	CHECK("halt succeeds and stops the machine", !e && halt_after == duckVM_halt_mode_halt);
	CHECK("halt changes no depth", vm.stack.elements_length == n0 && vm.upvalue_stack.elements_length == n0
		&& vm.call_stack.elements_length == call_len0 && vm.upvalue_array_call_stack.elements_length == upcall_len0 && vm.globals.elements_length == globals_len0);
	REACH("halt");
}
/* nop does nothing; an opcode without meaning is an error and changes nothing */
static void nop(void) {
	dl_error_t e;
	begin(duckLisp_instruction_nop);
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap(0); frame_rest();
	CHECK("nop succeeds", !e && ip_after == bc + 1 && vm.stack.elements_length == n0);
	REACH("nop");
}
static void undefined(int op) {
	dl_error_t e;
	begin(op);
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_heap(0); frame_rest();
	CHECK("an undefined opcode is an error", e != dl_error_ok);
	CHECK("an undefined opcode changes no depth", vm.stack.elements_length == n0);
	REACH("undefined");
}
HARNESS(H_undefined_first) { undefined(duckLisp_instruction_nil + 1); }
HARNESS(H_undefined_mid) { undefined(200); }
HARNESS(H_undefined_last) { undefined(255); }
HARNESS(H_halt) { halt(); }
HARNESS(H_nop) { nop(); }
HARNESS(H_return0) { ret(duckLisp_instruction_return0, 0); }
#define OPS(name, F) \
	HARNESS(H_##name##8) { F(duckLisp_instruction_##name##8, 1); } \
	HARNESS(H_##name##16) { F(duckLisp_instruction_##name##16, 2); } \
	HARNESS(H_##name##32) { F(duckLisp_instruction_##name##32, 4); }
OPS(jump, jump)
OPS(brnz, brnz)
OPS(return, ret)
