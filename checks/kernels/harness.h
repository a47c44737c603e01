/* shared by the CBMC harnesses and their native (sanitizer) replays */
#ifndef NULL
#define NULL ((void *)0)
#endif
#ifdef REPLAY
#include <stdio.h>
#include <stdlib.h>
static int getin(const char *n) { const char *s = getenv(n); return s ? atoi(s) : 0; }
#define INPUT(name) int name = getin(#name)
#define ASSUME(c) do { if (!(c)) { printf("ASSUMPTION\n"); exit(0); } } while (0)
#define CHECK(c, msg) do { if (!(c)) { printf("ASSERTION %s\n", msg); exit(42); } } while (0)
#else
int nondet_int(void);
#define INPUT(name) int name = nondet_int()
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert(c, msg)
#endif
#define RANGE(v, lo, hi) ASSUME((v) >= (lo) && (v) < (hi))
/* the library rejects length 1 with reflecting modes */
#define REJECTED(n, m) ((n) == 1 && ((m) == MODE_REFLECT || (m) == MODE_ANTIREFLECT))
#define FILL(p, n, v) do { for (size_t q_ = 0; q_ < (size_t)(n); q_++) (p)[q_] = (v); } while (0)
