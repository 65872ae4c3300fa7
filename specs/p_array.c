/* P13: the dynamic array against a mathematical sequence of ES-byte elements, observed at one arbitrary byte.
 * dl_memcopy/dl_memclear (thin wrappers of the C library's memmove/memset) and the allocator are used through
 * contracts; the sequence length, the buffer size, the strategy, the byte observed and every allocation outcome are
 * unconstrained.  One harness per operation and element size. */
#include "rt.h"
#include "DuckLib/array.h"
#include "DuckLib/core.h"
dl_error_t dl_array_copy(dl_array_t *arrayDestination, dl_array_t arraySource);
dl_error_t dl_array_append(dl_array_t *arrayDestination, dl_array_t *arraySource);
typedef unsigned char u8;
static dl_array_t a, a0;
static dl_memoryAllocation_t ma;
static u64 g;              /* observed byte of the array */
static u64 k;              /* observed byte of a single element or of an outgoing buffer */
static u8 before;          /* its value before the operation */
static u8 el[ES], out[ES];
#if NATIVE
#define LMAX 40
static volatile int fail_alloc;
#else
#define LMAX (1UL << 36)
#endif

#ifdef __CPROVER__
static int alloc_failed;
static dl_error_t nd_error(void) { u64 r = nondet_u64(); ASSUME(r >= 1 && r <= 8); alloc_failed = 1; return (dl_error_t) r; }
/* contract: dl_memcopy, followed at byte k of the destination and, inside the array's buffer, at byte g */
void dl_memcopy(void *d, const void *s, dl_size_t n) {
	if (n == 0) return;
	CHECK("copies write inside the destination buffer", __CPROVER_w_ok(d, n));
	CHECK("copies read inside the source buffer", __CPROVER_r_ok(s, n));
	if (__CPROVER_same_object(d, a.elements) || !__CPROVER_same_object(d, out)) {
		u64 o = (u64) __CPROVER_POINTER_OFFSET(d);
		if (g >= o && g - o < n) ((u8 *) d)[g - o] = ((const u8 *) s)[g - o];
	}
	else if (k < n) ((u8 *) d)[k] = ((const u8 *) s)[k];
}
void dl_memclear(void *d, dl_size_t n) {
	if (n == 0) return;
	CHECK("clearing writes inside the destination buffer", __CPROVER_w_ok(d, n));
	{
		u64 o = (u64) __CPROVER_POINTER_OFFSET(d);
		if (g >= o && g - o < n) ((u8 *) d)[g - o] = 0;
	}
}
dl_error_t dl_malloc(dl_memoryAllocation_t *m, void **p, dl_size_t size) {
	(void) m;
	if (nondet_u64() & 1) return nd_error();
	*p = malloc(size);
	return dl_error_ok;
}
dl_error_t dl_free(dl_memoryAllocation_t *m, void **p) {
	(void) m;
	CHECK("only a live buffer is freed", *p == dl_null || __CPROVER_r_ok(*p, 0));
	free(*p);
	*p = dl_null;
	return dl_error_ok;
}
/* contents kept up to the smaller size, followed at byte g; on failure the old buffer stays */
dl_error_t dl_realloc(dl_memoryAllocation_t *m, void **p, dl_size_t size) {
	u8 *q, *old = *p;
	(void) m;
	CHECK("no reallocation to size zero (which frees the buffer)", size > 0);
	if (nondet_u64() & 1) return nd_error();
	q = malloc(size);
	if (old && g < size && g < __CPROVER_OBJECT_SIZE(old)) q[g] = old[g];
	free(old);
	*p = q;
	return dl_error_ok;
}
#define RW_OK(p, n) ((n) == 0 || __CPROVER_w_ok((p), (n)))
#define OSIZE(p) __CPROVER_OBJECT_SIZE(p)
#else
#include <malloc.h>
#define alloc_failed fail_alloc
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
static volatile int armed;
void *__wrap_malloc(size_t n) { return armed && fail_alloc ? 0 : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { return armed && fail_alloc ? 0 : __real_realloc(p, n); }
#define RW_OK(p, n) ((n) == 0 || (p))
#define OSIZE(p) malloc_usable_size(p)
#endif
#ifdef __CPROVER__
#define armed dummy_armed
static int dummy_armed;
#endif

#define AT(arr, i) (((u8 *) (arr).elements)[i])
static void setup_one(dl_array_t *x, const char *idn, const char *idm, const char *ids) {
	u64 len, cap, st;
	(void) idn; (void) idm; (void) ids;
	IN_SEL(len, "len", 0, LMAX);
	IN_SEL(cap, "cap", 0, LMAX);
	IN_SEL(st, "strategy", 0, 1);
	ASSUME(cap >= len);
	dl_array_init(x, &ma, ES, st ? dl_array_strategy_double : dl_array_strategy_fit);
	CHECK("a new array is empty", x->elements_length == 0 && x->elements == dl_null && x->elements_memorySize == 0);
	CHECK("a new array has the requested shape", x->element_size == ES && x->memoryAllocation == &ma
		&& x->strategy == (st ? dl_array_strategy_double : dl_array_strategy_fit));
	if (cap) {
		x->elements = malloc(cap * ES);
		x->elements_memorySize = cap * ES;
		x->elements_length = len;
	}
#if NATIVE
	{ u64 i; for (i = 0; i < cap * ES; i++) ((u8 *) x->elements)[i] = (u8) (i * 37 + 11); }
#endif
}
static void setup(void) {
	setup_one(&a, "len", "cap", "strategy");
	IN_USUAL(g, "g", 0, NATIVE ? LMAX * ES : 0, NATIVE ? LMAX * ES : (1UL << 44));
	IN_SEL(k, "k", 0, ES - 1);
	{ u64 v; IN_SEL(v, "elk", 0, 255); el[k] = (u8) v; }
#if NATIVE
	{ u64 i; for (i = 0; i < ES; i++) if (i != k) el[i] = (u8) (i * 91 + 5); out[k] = 77; }
	IN_SEL(fail_alloc, "fail", 0, 1);
#endif
	a0 = a;
	before = 0;
	if (g < a.elements_length * ES) before = AT(a, g);
	armed = 1;
}
/* representation invariant plus everything a sequence of length len keeps */
static void after(u64 len, int contents) {
	armed = 0;
	CHECK("length of the sequence", a.elements_length == len);
	CHECK("element size, strategy and allocator unchanged", a.element_size == ES && a.strategy == a0.strategy && a.memoryAllocation == &ma);
	CHECK("buffer holds the sequence", a.elements_memorySize >= len * ES);
	CHECK("buffer has the recorded size", a.elements_memorySize == 0 || (a.elements != dl_null && OSIZE(a.elements) >= a.elements_memorySize));
	if (contents && g < len * ES && g < a0.elements_length * ES)
		CHECK("elements kept", a.elements != dl_null && AT(a, g) == before);
}
static void unchanged(void) {
	armed = 0;
	CHECK("a failed operation keeps the sequence", a.elements_length == a0.elements_length);
	after(a0.elements_length, 1);
	CHECK("a failed operation keeps the buffer", a.elements == a0.elements);
}
static u64 g_in_el(u64 start) { return g - start; }

HARNESS(H_push) {
	dl_error_t e;
	u64 nul;
	setup();
	IN_SEL(nul, "null", 0, 1);
	e = dl_array_pushElement(&a, nul ? dl_null : el);
	if (e) { REACH("failure"); CHECK("pushing fails only for lack of memory", alloc_failed); unchanged(); }
	else {
		u64 start = a0.elements_length * ES;
		REACH("pushed");
		after(a0.elements_length + 1, 1);
		/* the observed byte, and natively the whole element */
		if (g >= start && g - start == k) CHECK("the new last element", AT(a, g) == (nul ? 0 : el[k]));
#if NATIVE
		CHECK("the new last element", AT(a, start + k) == (nul ? 0 : el[k]));
#endif
	}
}
HARNESS(H_pushes) {
	dl_error_t e;
	u64 nul, n;
	u8 *els = dl_null;
	setup();
	IN_SEL(nul, "null", 0, 1);
	IN_SEL(n, "count", 0, LMAX);
	armed = 0;
	if (!nul) { els = malloc(n * ES);
#if NATIVE
		{ u64 i; for (i = 0; i < n * ES; i++) els[i] = (u8) (i * 13 + 3); }
#endif
	}
	armed = 1;
	e = dl_array_pushElements(&a, els, n);
	if (e) { REACH("failure"); CHECK("pushing fails only for lack of memory", alloc_failed); unchanged(); }
	else {
		u64 start = a0.elements_length * ES;
		REACH("pushed");
		after(a0.elements_length + n, 1);
		if (g >= start && g - start < n * ES) CHECK("the new last elements in order", AT(a, g) == (nul ? 0 : els[g - start]));
	}
}
HARNESS(H_pop) {
	dl_error_t e;
	u64 nul;
	u8 last = 0, out0;
	setup();
	IN_SEL(nul, "null", 0, 1);
	out0 = out[k];
	if (a.elements_length) last = AT(a, (a.elements_length - 1) * ES + k);
	e = dl_array_popElement(&a, nul ? dl_null : out);
	CHECK("popping fails exactly when empty", (e != 0) == (a0.elements_length == 0));
	if (e) { REACH("empty"); CHECK("underflow is reported as such", e == dl_error_bufferUnderflow); unchanged(); CHECK("nothing handed out", out[k] == out0); }
	else { REACH("popped"); after(a0.elements_length - 1, 1); CHECK("the former last element is handed out", nul || out[k] == last); }
}
HARNESS(H_pops) {
	dl_error_t e;
	u64 nul, n, j;
	u8 want = 0, *o = dl_null;
	setup();
	IN_SEL(nul, "null", 0, 1);
	IN_SEL(n, "count", 0, LMAX);
	IN_SEL(j, "j", 0, LMAX * ES);
	armed = 0;
	if (!nul) o = malloc(n * ES);
	armed = 1;
	ASSUME(n == 0 || j < n * ES);
#ifdef __CPROVER__
	/* the copy into the outgoing buffer is observed at byte j: the contract follows it through g */
	ASSUME(nul || g == j || n == 0);
#endif
	if (n && n <= a.elements_length) want = AT(a, (a.elements_length - n) * ES + j);
	e = dl_array_popElements(&a, o, n);
	CHECK("popping fails exactly when there are too few", (e != 0) == (a0.elements_length < n));
	if (e) { REACH("too few"); CHECK("underflow is reported as such", e == dl_error_bufferUnderflow); unchanged(); }
	else { REACH("popped"); after(a0.elements_length - n, 1); if (n && !nul) CHECK("the former last elements are handed out in order", o[j] == want); }
}
HARNESS(H_gettop) {
	dl_error_t e;
	u8 last = 0;
	setup();
	if (a.elements_length) last = AT(a, (a.elements_length - 1) * ES + k);
	e = dl_array_getTop(&a, out);
	CHECK("reading the top fails exactly when empty", (e != 0) == (a0.elements_length == 0));
	unchanged();
	if (e) { REACH("empty"); CHECK("underflow is reported as such", e == dl_error_bufferUnderflow); }
	else { REACH("read"); CHECK("the last element is handed out", out[k] == last); }
}
static void one_changed(dl_error_t e, u64 index) {
	armed = 0;
	after(a0.elements_length, 0);
	CHECK("the buffer stays", a.elements == a0.elements);
	if (!e && g / ES == index) { if (g % ES == k) CHECK("the element is replaced", AT(a, g) == el[k]); }
	else if (g < a0.elements_length * ES) CHECK("all other elements unchanged", AT(a, g) == before);
}
HARNESS(H_settop) {
	dl_error_t e;
	setup();
	e = dl_array_setTop(&a, el);
	CHECK("replacing the top fails exactly when empty", (e != 0) == (a0.elements_length == 0));
	one_changed(e, a0.elements_length - 1);
	if (e) { REACH("empty"); CHECK("underflow is reported as such", e == dl_error_bufferUnderflow); }
	else { REACH("replaced");
#if NATIVE
		CHECK("the element is replaced", AT(a, (a.elements_length - 1) * ES + k) == el[k]);
#endif
	}
}
static dl_ptrdiff_t index_(void) {
	u64 i;
#if NATIVE
	IN_USUAL(i, "index", 0, LMAX + 2, ~0UL);
	if (i > LMAX + 2 && a.elements_length) { /* also just outside */ }
#else
	IN_U(i, "index");
#endif
	return (dl_ptrdiff_t) i;
}
HARNESS(H_get) {
	dl_error_t e;
	dl_ptrdiff_t i;
	u8 want = 0, out0;
	int ok;
	setup();
	i = index_();
	ok = i >= 0 && (u64) i < a.elements_length;
	out0 = out[k];
	if (ok) want = AT(a, (u64) i * ES + k);
	e = dl_array_get(&a, out, i);
	CHECK("reading fails exactly outside the sequence", (e == 0) == ok);
	unchanged();
	if (e) { REACH("outside"); CHECK("nothing handed out", out[k] == out0); }
	else { REACH("read"); CHECK("the element is handed out", out[k] == want); }
}
HARNESS(H_set) {
	dl_error_t e;
	dl_ptrdiff_t i;
	int ok;
	setup();
	i = index_();
	ok = i >= 0 && (u64) i < a.elements_length;
	e = dl_array_set(&a, el, i);
	CHECK("writing fails exactly outside the sequence", (e == 0) == ok);
	one_changed(e, (u64) i);
	if (e) { REACH("outside"); } else { REACH("replaced");
#if NATIVE
		CHECK("the element is replaced", AT(a, (u64) i * ES + k) == el[k]);
#endif
	}
}
HARNESS(H_clear) {
	dl_error_t e;
	setup();
	e = dl_array_clear(&a);
	armed = 0;
	CHECK("clearing succeeds", !e);
	after(0, 0);
	REACH("cleared");
	CHECK("a cleared array owns no stale buffer", a0.elements_length == 0 ? a.elements == a0.elements : a.elements == dl_null);
}
HARNESS(H_quit) {
	dl_error_t e;
	setup();
	e = dl_array_quit(&a);
	armed = 0;
	CHECK("quitting succeeds", !e);
	REACH("quit");
	CHECK("an array that was quit owns nothing", a.elements_length == 0 && a.elements == dl_null && a.elements_memorySize == 0);
}
HARNESS(H_append) {
	dl_error_t e;
	dl_array_t b, b0;
	u8 want = 0;
	u64 start;
	setup();
	armed = 0;
	setup_one(&b, 0, 0, 0);
	armed = 1;
	b0 = b;
	start = a0.elements_length * ES;
	if (g >= start && g - start < b.elements_length * ES) want = AT(b, g - start);
	e = dl_array_append(&a, &b);
	if (e) { REACH("failure"); CHECK("appending fails only for lack of memory", alloc_failed); unchanged(); }
	else {
		REACH("appended");
		after(a0.elements_length + b0.elements_length, 1);
		if (g >= start && g - start < b0.elements_length * ES) CHECK("the new last elements in order", AT(a, g) == want);
		CHECK("the appended array is unchanged", b.elements == b0.elements && b.elements_length == b0.elements_length);
	}
}
HARNESS(H_copy) {
	dl_error_t e;
	dl_array_t b, b0;
	u8 want = 0;
	setup();
	armed = 0;
	setup_one(&b, 0, 0, 0);
	armed = 1;
	b0 = b;
	if (g < b.elements_length * ES) want = AT(b, g);
	e = dl_array_copy(&a, b);
	armed = 0;
	if (e) { REACH("failure"); CHECK("copying fails only for lack of memory", alloc_failed); a0.elements_length = a.elements_length; after(a.elements_length, 0); }
	else {
		REACH("copied");
		a0.strategy = b0.strategy;
		after(b0.elements_length, 0);
		CHECK("the copy has its own buffer", a.elements == dl_null || a.elements != b.elements);
		if (g < b0.elements_length * ES) CHECK("the copy has the same elements", AT(a, g) == want);
	}
}
