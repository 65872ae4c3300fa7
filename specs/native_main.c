/* Native driver: runs a harness on a recorded input (replay) or on random inputs (search). */
#include "rt.h"
#include <stdint.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#ifndef H
#error define H
#endif
extern void H(void);
jmp_buf rt_jmp;
int rt_failed, rt_verbose;
static FILE *rt_dump;
static struct { char id[64]; u64 v; } rep[4096];
static int rep_n, replaying;
static uint64_t s;
static uint64_t rnd(void) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ULL; }
u64 rt_in(const char *id, u64 lo, u64 hi) {
	u64 v;
	if (replaying) {
		int i;
		v = lo;
		for (i = 0; i < rep_n; i++) if (!strcmp(rep[i].id, id)) { v = rep[i].v; break; }
		if (i == rep_n) { /* input not constrained by the counterexample */ v = lo; }
		if (v < lo || v > hi) longjmp(rt_jmp, 2);
	}
	else if (lo == 0 && hi == ~0UL) {
		static const u64 edge[] = {0, 1, 2, 3, ~0UL, ~0UL - 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536,
			0x7fffffffUL, 0x80000000UL, 0xffffffffUL, 0x100000000UL, 0x7fffffffffffffffUL, 0x8000000000000000UL,
			0x3ff0000000000000UL, 0xbff0000000000000UL, 0x8000000000000000UL, 0x7ff8000000000000UL, 0x4000000000000000UL};
		switch (rnd() % 6) {
		case 0: v = edge[rnd() % (sizeof edge / sizeof *edge)]; break;
		case 1: v = rnd() % 8; break;
		case 2: v = -(rnd() % 300); break;
		case 3: v = rnd() % 300; break;
		case 4: v = 0x3ff0000000000000UL + (rnd() >> 10); break;
		default: v = rnd() >> (rnd() % 64); break;
		}
	}
	else {
		u64 span = hi - lo;
		if (span == ~0UL) v = rnd();
		else if (span > 64) switch (rnd() % 4) {
			case 0: v = lo + rnd() % (span + 1); break;
			case 1: v = hi - rnd() % 4; break;
			default: v = lo + rnd() % 12; break;
		}
		else v = lo + rnd() % (span + 1);
	}
	if (rt_dump) { fprintf(rt_dump, "%s %lu\n", id, v); fflush(rt_dump); }
	return v;
}
u64 rt_usual(const char *id, u64 lo, u64 usual, u64 hi) {
	u64 v;
	if (replaying || rnd() % 400 == 0) return rt_in(id, lo, hi);
	v = lo + rnd() % (usual - lo + 1);
	if (rt_dump) { fprintf(rt_dump, "%s %lu\n", id, v); fflush(rt_dump); }
	return v;
}
void rt_check(const char *label, int c) {
	if (!c) { rt_failed = 1; if (rt_verbose) { printf("FAILED-CHECK %s\n", label); fflush(stdout); } }
}
static u64 reached;
void rt_reach(const char *label) { (void) label; reached++; }
static int one(void) {
	rt_failed = 0;
	int j = setjmp(rt_jmp);
	if (j) return 0;
	H();
	return rt_failed;
}
/* usage: prog replay FILE | prog search SECONDS SEED OUTFILE */
int main(int argc, char **argv) {
	setvbuf(stdout, NULL, _IOLBF, 0);
	if (argc >= 3 && !strcmp(argv[1], "replay")) {
		FILE *f = fopen(argv[2], "r");
		char id[64]; unsigned long v;
		if (!f) return 3;
		while (rep_n < 4096 && fscanf(f, "%63s %lu", id, &v) == 2) { strcpy(rep[rep_n].id, id); rep[rep_n].v = v; rep_n++; }
		replaying = 1; rt_verbose = 1;
		alarm(20);
		int r = one();
		if (!r) printf(reached ? "replay: no check failed\n" : "replay: precondition not met\n");
		return r ? 1 : 0;
	}
	if (argc >= 5 && !strcmp(argv[1], "search")) {
		double lim = atof(argv[2]);
		uint64_t seed = strtoull(argv[3], 0, 10);
		struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
		/* children run batches so that a crash is a finding, not the end of the search */
		uint64_t batch = 0;
		for (;;) {
			clock_gettime(CLOCK_MONOTONIC, &t);
			if (t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9 > lim) break;
			batch++;
			pid_t p = fork();
			if (!p) {
				uint64_t k;
				alarm(10);
				for (k = 0; k < 500; k++) {
					s = (seed * 1000003 + batch * 500 + k) * 0x9E3779B97F4A7C15ULL | 1;
					rnd(); rnd();
					if (one()) _exit(2);
					if (k == 499) _exit(0);
				}
				_exit(0);
			}
			int st; waitpid(p, &st, 0);
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
			/* rerun the batch one case per process to find the failing one */
			for (uint64_t k = 0; k < 500; k++) {
				p = fork();
				if (!p) {
					alarm(5);
					s = (seed * 1000003 + batch * 500 + k) * 0x9E3779B97F4A7C15ULL | 1;
					rnd(); rnd();
					_exit(one() ? 2 : 0);
				}
				waitpid(p, &st, 0);
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
				/* failing case: record its inputs (a crash loses memory, so record while running) */
				p = fork();
				if (!p) {
					/* generate inputs, dumping each as it is drawn */
					rt_dump = fopen(argv[4], "w");
					alarm(5); rt_verbose = 1;
					s = (seed * 1000003 + batch * 500 + k) * 0x9E3779B97F4A7C15ULL | 1;
					rnd(); rnd();
					int r = one();
					_exit(r ? 2 : 0);
				}
				waitpid(p, &st, 0);
				printf("search: failing input found (status %d)\n", st);
				return 1;
			}
		}
		printf("search: no failing input in %lu batches\n", (unsigned long) batch);
		return 0;
	}
	return 3;
}
