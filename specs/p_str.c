/* Contracts of the string instructions on the interpreter's real instruction step.
 * Invariant of every string value: offset <= length <= bytes in its storage; without storage both are zero.
 * Copies are followed at one arbitrary byte (str_fp[0]); everything stated about it holds for every byte.
 */
#define STR_FOOTPRINT
#define STR_FOOTPRINT_N 1
static unsigned long str_fp[1];
#include "vm.h"

static void begin(int opcode) { vm_setup(); bc[0] = (dl_uint8_t) opcode; }
/* H0, H1: string storage; H2: any value */
static u64 slen[2];
static dl_uint8_t *sbuf[2];
static u64 sg[2];           /* an arbitrary byte of each: frame condition */
static dl_uint8_t sg_before[2];
static int is_str(const duckVM_object_t *o) { return o->type == duckVM_object_type_string; }
static int is_sym(const duckVM_object_t *o) { return o->type == duckVM_object_type_symbol; }
static dl_uint8_t byte_of(duckVM_object_t *cell, u64 i) {
	if (cell == heap_obj(0)) return sbuf[0][i];
	return sbuf[1][i];
}
static void heap_strings(void) {
	IN_SEL(slen[0], "s0.len", 0, NATIVE ? 7 : SMALL_OR(7, 1UL << 32));
	IN_SEL(slen[1], "s1.len", 0, NATIVE ? 7 : SMALL_OR(7, 1UL << 32));
	IN_OBJ(*heap_obj(2), "H2", duckVM_object_type_bool, duckVM_object_type_type);
#define HS(k) \
	sbuf[k] = slen[k] ? malloc(slen[k]) : dl_null; \
	heap_obj(k)->type = duckVM_object_type_internalString; \
	heap_obj(k)->value.internalString.value = sbuf[k]; \
	heap_obj(k)->value.internalString.value_length = slen[k];
	HS(0) HS(1)
#if NATIVE
	{
		u64 j, salt = rt_in("salt", 0, 255);
		for (j = 0; j < slen[0]; j++) sbuf[0][j] = (dl_uint8_t) (salt + 7 * j);
		for (j = 0; j < slen[1]; j++) sbuf[1][j] = (dl_uint8_t) (salt + 100 + 11 * j);
	}
#endif
	IN_U(sg[0], "sg0"); IN_U(sg[1], "sg1");
	if (slen[0]) { if (NATIVE) sg[0] %= slen[0]; if (sg[0] < slen[0]) sg_before[0] = sbuf[0][sg[0]]; }
	if (slen[1]) { if (NATIVE) sg[1] %= slen[1]; if (sg[1] < slen[1]) sg_before[1] = sbuf[1][sg[1]]; }
	IN_U(str_fp[0], "t");
}
static void frame_strings(void) {
#if NATIVE
	if (native_unrooted) return;
#endif
	frame_heap(0);
	if (sg[0] < slen[0]) CHECK("frame: the bytes of existing strings are unchanged", sbuf[0][sg[0]] == sg_before[0]);
	if (sg[1] < slen[1]) CHECK("frame: the bytes of existing strings are unchanged", sbuf[1][sg[1]] == sg_before[1]);
}
/* the invariant (natively: made true) */
static int ok_value(duckVM_object_t *o) {
	duckVM_object_t *s;
	u64 n;
	if (is_sym(o)) { s = o->value.symbol.internalString; return !s || s == heap_obj(0) || s == heap_obj(1); }
	if (!is_str(o)) return 1;
	s = o->value.string.internalString;
	if (s && s != heap_obj(0) && s != heap_obj(1)) return 0;
	n = !s ? 0 : s == heap_obj(0) ? slen[0] : slen[1];
#if NATIVE
	o->value.string.length %= n + 1;
	o->value.string.offset %= o->value.string.length + 1;
#endif
	return (u64) o->value.string.offset <= o->value.string.length && o->value.string.length <= n;
}
static u64 s_off(const duckVM_object_t *o) { return is_str(o) ? (u64) o->value.string.offset : 0; }
static duckVM_object_t *s_cell(const duckVM_object_t *o) { return is_str(o) ? o->value.string.internalString : o->value.symbol.internalString; }
static u64 s_visible(const duckVM_object_t *o) {
	if (is_str(o)) return o->value.string.length - (u64) o->value.string.offset;
	if (!s_cell(o)) return 0;
	return s_cell(o) == heap_obj(0) ? slen[0] : slen[1];
}
static dl_uint8_t s_byte(const duckVM_object_t *o, u64 i) { return byte_of(s_cell(o), s_off(o) + i); }
static int str_is(const duckVM_object_t *r, duckVM_object_t *cell, u64 off, u64 len) {
	return is_str(r) && r->value.string.internalString == cell && (u64) r->value.string.offset == off && r->value.string.length == len;
}

/* length, car, cdr, symbol-string, symbol-id */
enum { LENGTH, CAR, CDR, SYMSTR, SYMID };
static void one(int what, int opcode, int w) {
	duckVM_object_t a;
	u64 d1, left = 0;
	dl_error_t e;
	dl_uint8_t b = 0;
	int ok;
	begin(opcode);
	heap_strings();
	IN_DIST(d1, "d1", 1, w);
	if (what == SYMSTR || what == SYMID) IN_VALUE(a, "A");
	else IN_OBJ(a, "A", duckVM_object_type_string, duckVM_object_type_string);
	ASSUME(ok_value(&a));
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, a); }
	ok = dist_ok(d1) && (is_str(&a) ? what <= CDR : is_sym(&a));
	if (is_str(&a) || is_sym(&a)) left = s_visible(&a);
	if (left) b = s_byte(&a, 0);
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_rest(); frame_strings();
	if (ok) {
		CHECK("reading a string or symbol succeeds (unless out of memory)", !e || alloc_failed);
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			if (what == LENGTH) CHECK("length is the number of visible bytes", r.type == duckVM_object_type_integer && (u64) r.value.integer == left);
			if (what == CAR && left) CHECK("car is the first visible byte", r.type == duckVM_object_type_integer && r.value.integer == b);
			if (what == CDR && left > 1) CHECK("cdr is the rest of the same string", str_is(&r, s_cell(&a), s_off(&a) + 1, a.value.string.length));
			if ((what == CAR && !left) || (what == CDR && left <= 1)) CHECK("past the end there is the empty string", str_is(&r, dl_null, 0, 0));
			if (what == SYMSTR) CHECK("symbol-string is exactly the symbol's name", str_is(&r, s_cell(&a), 0, left));
			if (what == SYMID) CHECK("symbol-id is the symbol's number", r.type == duckVM_object_type_integer && r.value.integer == (dl_ptrdiff_t) a.value.symbol.id);
			CHECK("instruction pointer advances past the operand", ip_after == bc + 1 + w);
			REACH("success");
		}
	}
	else {
		CHECK("a wrong operand is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
/* get-vector-element of a string */
static void elt(int opcode, int w) {
	duckVM_object_t s, ix;
	u64 d1, d2;
	i64 i;
	dl_error_t e;
	dl_uint8_t b = 0;
	int ok;
	begin(opcode);
	heap_strings();
	IN_DIST(d1, "d1", 1, w); IN_DIST(d2, "d2", 1 + w, w);
	IN_OBJ(s, "S", duckVM_object_type_string, duckVM_object_type_string); IN_VALUE(ix, "I");
	ASSUME(ok_value(&s) && ok_value(&ix));
	if (d1 == d2) ix = s;
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, s); }
	if (dist_ok(d2)) { FP[2] = n0 - d2; STK_set(n0 - d2, ix); }
	i = ix.value.integer;
	ok = dist_ok(d1) && dist_ok(d2) && ix.type == duckVM_object_type_integer && i >= 0 && (u64) i < s_visible(&s);
	if (ok) b = s_byte(&s, (u64) i);
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_rest(); frame_strings();
	if (ok) {
		CHECK("an index within the string is accepted (unless out of memory)", !e || alloc_failed);
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			CHECK("the addressed visible byte is returned", r.type == duckVM_object_type_integer && r.value.integer == b);
			CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 2 * w);
			REACH("success");
		}
	}
	else {
		CHECK("an index outside the visible bytes or a wrong operand is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
static void substring(int opcode, int w) {
	duckVM_object_t s, a, b;
	u64 d1, d2, d3;
	dl_error_t e;
	int ok;
	begin(opcode);
	heap_strings();
	IN_DIST(d1, "d1", 1, w); IN_DIST(d2, "d2", 1 + w, w); IN_DIST(d3, "d3", 1 + 2 * w, w);
	IN_VALUE(s, "S"); IN_VALUE(a, "A"); IN_VALUE(b, "B");
	ASSUME(ok_value(&s) && ok_value(&a) && ok_value(&b));
	if (d2 == d1) a = s;
	if (d3 == d1) b = s; else if (d3 == d2) b = a;
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, s); }
	if (dist_ok(d2)) { FP[2] = n0 - d2; STK_set(n0 - d2, a); }
	if (dist_ok(d3)) { FP[3] = n0 - d3; STK_set(n0 - d3, b); }
	ok = dist_ok(d1) && dist_ok(d2) && dist_ok(d3) && is_str(&s) && a.type == duckVM_object_type_integer && b.type == duckVM_object_type_integer
		&& a.value.integer >= 0 && a.value.integer <= b.value.integer && (u64) b.value.integer <= s_visible(&s);
	vm_before();
	e = vm_step();
	frame_lockstep(); frame_slots(); frame_rest(); frame_strings();
	if (ok) {
		CHECK("a window within the string is accepted (unless out of memory)", !e || alloc_failed);
		if (!e) {
			duckVM_object_t r;
			pushed_one();
			r = STK_get(n0);
			CHECK("the result has exactly the window's length", is_str(&r) && s_visible(&r) == (u64) (b.value.integer - a.value.integer));
			CHECK("the result starts at the window's first byte", s_visible(&r) == 0 || (is_str(&r) && s_cell(&r) == s_cell(&s) && s_off(&r) == s_off(&s) + (u64) a.value.integer));
			CHECK("the result is a well-formed string", ok_value(&r));
			CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 3 * w);
			REACH("success");
		}
	}
	else {
		CHECK("a window outside the visible bytes or a wrong operand is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
#if !NATIVE
/* ---- contract: dl_memcopy_noOverlap, followed at one byte of the new string's storage (enforced on the real
 * function by P16) */
void c_memcopy(void *dst, const void *src, const dl_size_t size) {
	if (size) {
		dl_uint8_t *base = new_obj(0)->value.internalString.value;
		u64 at;
		CHECK("copy reads only its source", __CPROVER_r_ok(src, size));
		CHECK("copy writes only its destination", __CPROVER_w_ok(dst, size));
		CHECK("copy goes to the new string", __CPROVER_same_object(base, dst));
		at = (u64) ((dl_uint8_t *) dst - base);
		if (str_fp[0] >= at && str_fp[0] - at < size) base[str_fp[0]] = ((const dl_uint8_t *) src)[str_fp[0] - at];
	}
}
#endif
static int is_fresh(duckVM_object_t *c) {
#if NATIVE
	if (native_unrooted) return 1;   /* a lost cell may have been handed out again */
#endif
	return c != heap_obj(0) && c != heap_obj(1) && c != heap_obj(2);
}
static void concat(int opcode, int w) {
	duckVM_object_t a, b;
	u64 d1, d2, la = 0, lb = 0;
	dl_error_t e;
	int ok;
	begin(opcode);
	heap_strings();
	IN_DIST(d1, "d1", 1, w); IN_DIST(d2, "d2", 1 + w, w);
	IN_VALUE(a, "A"); IN_VALUE(b, "B");
	ASSUME(ok_value(&a) && ok_value(&b));
	if (d1 == d2) b = a;
	if (dist_ok(d1)) { FP[1] = n0 - d1; STK_set(n0 - d1, a); }
	if (dist_ok(d2)) { FP[2] = n0 - d2; STK_set(n0 - d2, b); }
	ok = dist_ok(d1) && dist_ok(d2) && (is_str(&a) || is_sym(&a)) && (is_str(&b) || is_sym(&b));
	if (ok) { la = s_visible(&a); lb = s_visible(&b); }
	vm_before();
	e = vm_step();
	frame_slots(); frame_rest(); frame_strings();
	if (ok) {
		CHECK("concatenating succeeds (unless out of memory)", !e || alloc_failed || NATIVE);
		if (!e) {
			duckVM_object_t r, *c;
			frame_lockstep();
			pushed_one();
			r = STK_get(n0);
			c = r.value.string.internalString;
			CHECK("the result is a string of exactly both lengths", is_str(&r) && (u64) r.value.string.offset == 0 && r.value.string.length == la + lb);
			if (is_str(&r) && la + lb) {
				CHECK("its storage is fresh", c && c->type == duckVM_object_type_internalString && is_fresh(c)
					&& c->value.internalString.value_length == la + lb);
#if NATIVE
				{ u64 t;
				if (!native_unrooted) for (t = 0; t < la + lb; t++)
					CHECK("the bytes of the first are followed by those of the second", c->value.internalString.value[t] == (t < la ? s_byte(&a, t) : s_byte(&b, t - la)));
				}
#else
				{ u64 t = str_fp[0];
				if (t < la + lb)
					CHECK("the bytes of the first are followed by those of the second", c->value.internalString.value[t] == (t < la ? s_byte(&a, t) : s_byte(&b, t - la)));
				}
#endif
			}
			CHECK("instruction pointer advances past the operands", ip_after == bc + 1 + 2 * w);
			REACH("success");
		}
	}
	else {
		CHECK("an operand that is no string or symbol, or outside the stack, is an error", e != dl_error_ok);
		CHECK("failed operation pushes nothing", vm.stack.elements_length == n0);
		REACH("error");
	}
}
#define OPS(name, op, F, ...) \
	HARNESS(H_##name##8) { F(__VA_ARGS__ duckLisp_instruction_##op##8, 1); } \
	HARNESS(H_##name##16) { F(__VA_ARGS__ duckLisp_instruction_##op##16, 2); } \
	HARNESS(H_##name##32) { F(__VA_ARGS__ duckLisp_instruction_##op##32, 4); }
#define C_ ,
OPS(length, length, one, LENGTH C_)
OPS(car, car, one, CAR C_)
OPS(cdr, cdr, one, CDR C_)
OPS(symstr, symbolString, one, SYMSTR C_)
OPS(symid, symbolId, one, SYMID C_)
OPS(elt, getVecElt, elt, )
OPS(substring, substring, substring, )
OPS(concat, concatenate, concat, )
