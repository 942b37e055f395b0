#include "common.h"
#undef assert
#include <stdbool.h>
#include "vector.h"
typedef struct { void *fn; int label; void *bp, *sp; } Fr;
#define RUN(T, MK, SAME)                                                                                   \
	do {                                                                                               \
		vector(T) v;                                                                               \
		int cap0 = rn(3) ? 1 + rn(9) : 1;                                                          \
		int late = rn(4) == 0;                                                                     \
		if (late) memset(&v, 0, sizeof v); else vecInit(&v, cap0);                                 \
		T *ref = malloc(sizeof(T) * 4000);                                                         \
		int n = 0, steps = thorough ? 3000 : 900, grow = 2 + rn(6);                                \
		for (int s = 0; s < steps; s++) {                                                          \
			int op = rn(10);                                                                   \
			uint64_t r = rnd();                                                                \
			CASE(#T " array, initial capacity %d, step %d (length %d), operation %d", late ? 0 : cap0, s, n, op); \
			if (op < grow && n < 3900) { T x = MK(r); vecAppend(&v, x); ref[n++] = x; }        \
			else if (op < 8 && n) { T x = vecPop(&v); n--; CHECK(SAME(x, ref[n]), "pop returns another element"); } \
			else if (n) { int i = rn(n); T x = MK(r); vecSet(&v, i, x); ref[i] = x; CHECK(SAME(*vecRef(&v, i), x), "vecRef"); } \
			CHECK(vecLen(&v) == n, "length %d", vecLen(&v));                                   \
			CHECK(vecLen(&v) <= vecCap(&v) , "capacity");                                      \
			if (s % 7 == 0 || n < 20) for (int i = 0; i < n; i++) CHECK(SAME(vecGet(&v, i), ref[i]), "element %d is not the one stored", i); \
		}                                                                                          \
		DISTINCT();                                                                                \
		vecFree(&v);                                                                               \
		CHECK(vecLen(&v) == 0, "free");                                                            \
		free(ref);                                                                                 \
	} while (0)
static Fr mkfr(uint64_t r) { Fr f; memset(&f, 0, sizeof f); f.fn = (void *)r; f.label = (int)(r >> 20); f.bp = (void *)(r ^ 77); f.sp = (void *)(r * 3); return f; }
typedef uint64_t U; typedef struct { int a, b; } Mk; typedef struct { char c[3]; } Odd;
static Mk mkm(uint64_t r) { Mk m = {(int)r, (int)(r >> 32)}; return m; }
static Odd mko(uint64_t r) { Odd o = {{(char)r, (char)(r >> 8), (char)(r >> 16)}}; return o; }
#define ID(r) (r)
#define EQ(a, b) ((a) == (b))
#define EQM(a, b) (!memcmp(&(a), &(b), sizeof(b)))
int main(void) {
	drv_init();
	for (int rep = 0; rep < (thorough ? 400 : 60); rep++) {
		RUN(U, ID, EQ);
		RUN(Fr, mkfr, EQM);
		RUN(Mk, mkm, EQM);
		RUN(Odd, mko, EQM);
	}
	vector(U) w;
	vecInit(&w, 1);
	int big = thorough ? 3000000 : 300000;
	CASE("an array grown by appending %d elements", big);
	for (int i = 0; i < big; i++) vecAppend(&w, (U)i * 11);
	CHECK(vecLen(&w) == big, "length");
	for (int i = 0; i < big; i++) if (vecGet(&w, i) != (U)i * 11) { CHECK(0, "element %d is lost", i); break; }
	for (int i = big - 1; i >= 0; i--) if (vecPop(&w) != (U)i * 11) { CHECK(0, "pop %d", i); break; }
	CHECK(vecLen(&w) == 0, "length after popping all");
	return drv_done("random sequences of append, pop, set and reference with four element types and several initial capacities (also none) against a plain array; distinct by sequence");
}
