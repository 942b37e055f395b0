#include "common.h"
#undef assert
#include <stdbool.h>
#include "map.h"
#include "vm.h"
#undef assert
struct K16 { uint64_t a, b; };
struct V16 { uint64_t a, b; };
struct V40 { uint64_t a[5]; };
typedef struct { int a; char c[8]; } K12;
static int hmode;
static uint64_t mixh(uint64_t x) {
	switch (hmode) {
	case 0: return mix64(x);
	case 1: return 0;                     // every key collides
	case 2: return x;                     // low bits only: found deep in the trie
	case 3: return x << 62;
	case 4: return ~0ULL;
	case 5: return mix64(x) & 0xFF;
	case 6: return (x & 1) ? mix64(x) : mix64(x) >> 60;
	default: return x << 40;
	}
}
static uint64_t h16(void *p) { return mixh(((struct K16 *)p)->a * 31 + ((struct K16 *)p)->b); }
static bool e16(void *p, void *q) { struct K16 *x = p, *y = q; return x->a == y->a && x->b == y->b; }
// equality of the low 4 bits of each part only: equal keys that are not the same bytes
static uint64_t h16m(void *p) { return mixh((((struct K16 *)p)->a & 15) * 31 + (((struct K16 *)p)->b & 15)); }
static bool e16m(void *p, void *q) { struct K16 *x = p, *y = q; return (x->a & 15) == (y->a & 15) && (x->b & 15) == (y->b & 15); }
static uint64_t h12(void *p) { return mixh(((K12 *)p)->a ^ ((K12 *)p)->c[3]); }
static bool e12(void *p, void *q) { return ((K12 *)p)->a == ((K12 *)q)->a && !memcmp(((K12 *)p)->c, ((K12 *)q)->c, 8); }
static uint64_t h8(void *p) { return mixh(*(uint64_t *)p); }
static bool e8(void *p, void *q) { return *(uint64_t *)p == *(uint64_t *)q; }
static struct K16 mk16(int i) { return (struct K16){i * 7, i / 3}; }
static struct K16 mk16m(int i) { uint64_t r = rnd() & ~15ULL; return (struct K16){(i & 15) | r, ((i >> 4) & 15) | (r * 16)}; }
static K12 mk12(int i) { K12 k; memset(&k, 0, sizeof k); k.a = i / 4; k.c[3] = i & 3; return k; }
static uint64_t mk8(int i) { return (uint64_t)i * 3; }
static uint64_t mv8(uint64_t r) { return r; }
static struct V16 mv16(uint64_t r) { return (struct V16){r, ~r}; }
static struct V40 mv40(uint64_t r) { return (struct V40){{r, r + 1, r * 3, ~r, 5}}; }
#define NK 200
#define RUN(K, V, MK, MV, H, E)                                                                                       \
	do {                                                                                                          \
		map(K, V) m;                                                                                          \
		memset(&m, 0xA5, sizeof m);                                                                           \
		mapInit(&m, H, E);                                                                                    \
		V *ref = calloc(NK, sizeof(V));                                                                       \
		char have[NK] = {0};                                                                                  \
		int nk = 2 + rn(NK - 2), steps = thorough ? 1500 : 350;                                               \
		for (int s = 0; s < steps; s++) {                                                                     \
			int i = rn(nk);                                                                               \
			K k = MK(i);                                                                                  \
			V v = MV(rnd());                                                                              \
			CASE("table %s->%s, hash kind %d, %d keys: step %d sets key %d", #K, #V, hmode, nk, s, i);    \
			mapSet(&m, k, v);                                                                             \
			ref[i] = v;                                                                                   \
			have[i] = 1;                                                                                  \
			if (s % 9 == 0 || s < 40) for (int j = 0; j < nk; j++) {                                      \
				K kj = MK(j);                                                                         \
				V *g = mapGet(&m, kj);                                                                \
				CHECK(have[j] ? g && !memcmp(g, &ref[j], sizeof(V)) : !g, "key %d: %s", j, g ? "found, with another value than the one stored, or never stored" : "is not found"); \
			}                                                                                             \
			else { V *g = mapGet(&m, k); CHECK(g && !memcmp(g, &v, sizeof v), "the value just stored is not found"); } \
		}                                                                                                     \
		DISTINCT();                                                                                           \
		free(ref);                                                                                            \
	} while (0)
static void texts(void) {
	char x[300], y[300];
	for (int rep = 0; rep < (thorough ? 60000 : 8000); rep++) {
		int n = rn(3) ? rn(9) : rn(280), m = rn(2) ? n : rn(9);
		for (int i = 0; i < n; i++) x[i] = rn(4) ? "ab\xff\0"[rn(4)] : rnd();
		memcpy(y, x, sizeof y);
		if (n && rn(2)) y[rn(n)] ^= 1 << rn(8);
		char *p = malloc(n ? n : 1), *q = malloc(m ? m : 1);
		if (m > n) memset(y + n, 'z', m - n);
		memcpy(p, x, n); memcpy(q, y, m);
		str s = {p, n}, t = {q, m};
		int same = n == m && !memcmp(p, q, n);
		CASE("two texts of %d and %d bytes, %s (%.*s | %.*s)", n, m, same ? "equal" : "different", n < 20 ? n : 20, p, m < 20 ? m : 20, q);
		CHECK(strEQFunc(&s, &t) == same && strEQFunc(&t, &s) == same, "strEQFunc");
		CHECK(!same || strHashFunc(&s) == strHashFunc(&t), "equal texts, different hashes");
		free(p); free(q);
		DISTINCT();
	}
}
static void symbols(void) {
	int n = thorough ? 60000 : 6000;
	Obj *sy = malloc(n * sizeof *sy);
	char b[64];
	for (int i = 0; i < n; i++) {
		snprintf(b, sizeof b, i % 3 ? "s%d" : "%d/long-name-of-a-symbol-%d", i, i);
		CASE("symbol %s", b);
		sy[i] = intern(b);
		primSet(vm, sy[i], makeNumber(i));
	}
	for (int i = 0; i < n; i++) {
		snprintf(b, sizeof b, i % 3 ? "s%d" : "%d/long-name-of-a-symbol-%d", i, i);
		CASE("symbol %s, interned again after %d others", b, n);
		CHECK(intern(b) == sy[i], "another symbol");
		CHECK(symbolGet(vm, sy[i]) == makeNumber(i), "another global value");
	}
	for (int i = 0; i < 200; i++) {
		snprintf(b, sizeof b, "never-interned-%d", i);
		CASE("symbol %s", b);
		CHECK(symbolGet(vm, intern(b)) == Undef, "has a value although none was stored");
	}
}
int main(void) {
	drv_init();
	vm_init();
	for (int rep = 0; rep < (thorough ? 60 : 6); rep++)
		for (hmode = 0; hmode < 8; hmode++) {
			RUN(struct K16, uint64_t, mk16, mv8, h16, e16);
			RUN(struct K16, struct V16, mk16, mv16, h16, e16);
			RUN(struct K16, struct V16, mk16m, mv16, h16m, e16m);
			RUN(K12, struct V40, mk12, mv40, h12, e12);
			RUN(uint64_t, uint64_t, mk8, mv8, h8, e8);
		}
	texts();
	symbols();
	return drv_done("random sequences of stores over tables with four key and value types and eight hash functions (all colliding, deep, shallow, mixed) against plain arrays; equal and different texts; thousands of symbols with values");
}
