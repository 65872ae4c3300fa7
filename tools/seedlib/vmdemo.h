/* Runs hand-assembled bytecode on the real virtual machine. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "duckLisp.h"
#include "duckVM.h"
static dl_memoryAllocation_t ma;
static duckVM_t vm;
static unsigned char code[100000];
static size_t len;
static void B(int b) { code[len++] = (unsigned char) b; }
static void W(long v, int w) { while (w--) B((int) ((v >> (8 * w)) & 255)); }
static void pushInt(long v) { B(duckLisp_instruction_pushInteger32); W(v, 4); }
static void pushDbl(double d) { unsigned long u; memcpy(&u, &d, 8); B(duckLisp_instruction_pushDoubleFloat); W((long) u, 8); }
static void pushStr(const char *s) { B(duckLisp_instruction_pushString8); B((int) strlen(s)); while (*s) B(*s++); }
static void start(size_t cells) { memset(&ma, 0, sizeof ma); if (duckVM_init(&vm, &ma, cells)) exit(9); len = 0; }
/* runs the code, returns the error; *r is the top of the stack */
static int run(duckVM_object_t *r) {
	int e;
	B(duckLisp_instruction_halt);
	e = duckVM_execute(&vm, code, len);
	if (!e && r) e = dl_array_getTop(&vm.stack, r);
	return e;
}
static int bad;
#define EXPECT(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
