/* The allocator's contract as every other property uses it, enforced on the C-library variant in memory.c. */
#include "rt.h"
#include "DuckLib/memory.h"
typedef unsigned char u8;
static dl_memoryAllocation_t ma;
#ifdef __CPROVER__
#define BIG (1UL << 40)
#define OSIZE(p) __CPROVER_OBJECT_SIZE(p)
#define OK(p, n) __CPROVER_rw_ok((p), (n))
#define FAILED 1
#else
#include <malloc.h>
#define BIG 4096
#define OSIZE(p) malloc_usable_size(p)
#define OK(p, n) ((p) != 0)
static volatile int armed, fail_alloc;
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return armed && fail_alloc ? 0 : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { return armed && fail_alloc ? 0 : __real_realloc(p, n); }
#define FAILED fail_alloc
#endif
static void arm(int on) {
#if NATIVE
	if (on) IN_SEL(fail_alloc, "fail", 0, 1);
	armed = on;
#else
	(void) on;
#endif
}
HARNESS(H_malloc) {
	void *p = dl_null;
	dl_error_t e;
	u64 n;
	IN_SEL(n, "size", 1, BIG);
	arm(1);
	e = dl_malloc(&ma, &p, n);
	arm(0);
	if (e) { REACH("failure"); CHECK("failure is reported as lack of memory", FAILED && e == dl_error_outOfMemory); }
	else { REACH("allocated"); CHECK("a fresh buffer of the requested size", p != dl_null && OSIZE(p) >= n && OK(p, n)); }
}
HARNESS(H_free) {
	void *p = dl_null;
	u64 n;
	IN_SEL(n, "size", 0, BIG);
	if (n) p = malloc(n);
	CHECK("freeing succeeds", dl_free(&ma, &p) == dl_error_ok);
	REACH("freed");
	CHECK("the pointer is cleared", p == dl_null);
}
HARNESS(H_realloc) {
	u8 *p = dl_null, *old, was = 0;
	dl_error_t e;
	u64 n, m, g;
	IN_SEL(n, "size", 0, BIG);
	IN_SEL(m, "new", 1, BIG);
	IN_SEL(g, "g", 0, BIG);
	if (n) p = malloc(n);
	ASSUME(n == 0 || p != dl_null);
	if (n && g < n) { was = p[g] = 123; }
	old = p;
	arm(1);
	e = dl_realloc(&ma, (void **) &p, m);
	arm(0);
	if (e) {
		REACH("failure");
		CHECK("failure is reported as lack of memory", FAILED && e == dl_error_outOfMemory);
		CHECK("a failed reallocation keeps the old buffer", p == old && (n == 0 || OK(p, n)));
		if (p && g < n) CHECK("a failed reallocation keeps the contents", p[g] == was);
	}
	else {
		REACH("reallocated");
		CHECK("a buffer of the requested size", p != dl_null && OSIZE(p) >= m && OK(p, m));
		if (n && g < n && g < m) CHECK("contents kept up to the smaller size", p[g] == was);
	}
}
