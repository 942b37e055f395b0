// the allocator of the real code under a random mutator: every live object keeps its bytes, no two overlap
#include "common.h"
#undef assert
#include "types.h"
#include "gc.h"
#define MAXLIVE 3000
typedef struct { uint8_t *p; int size; uint8_t type; uint64_t seed; } Live;
static Live live[MAXLIVE];
static int nlive;
static long sum_large;
static GC *gc;
static void leaf(struct GC *g, void *from) { }
static Obj tagged(void *p) { return (((uint64_t)TAG_PTR << 48) | OBJ_MASK) | (uint64_t)p; }
static void roots(GC *g, void *data) { for (int i = 0; i < nlive; i++) gcMark(g, tagged(live[i].p), 0); }
static uint8_t pat(uint64_t seed, int i) { return (uint8_t)((seed * 0x9E3779B97F4A7C15ULL + (uint64_t)i * 0xD1B54A32D192ED03ULL) >> 53); }
// large objects: only the ends are filled, to keep the memory of the driver small
static int skip(int size, int i) { return size > 20000 && i == 5000 ? size - 5000 : i; }
static void fill(Live *l) { for (int i = sizeof(scmHead); i < l->size; i++) { i = skip(l->size, i); l->p[i] = pat(l->seed, i); } }
static void verify(Live *l, int k) {
	scmHead *h = (scmHead *)l->p;
	CHECK(h->size == (uint32_t)l->size, "object %d of %d bytes: its recorded size became %u", k, l->size, h->size);
	CHECK(h->type == l->type, "object %d of %d bytes: its type became %d", k, l->size, h->type);
	for (int i = sizeof(scmHead); i < l->size; i++) {
		i = skip(l->size, i);
		if (l->p[i] != pat(l->seed, i)) { CHECK(0, "object %d of %d bytes: byte %d changed", k, l->size, i); break; }
	}
}
static int pick_size(int mode) {
	static const int edge[] = {9, 10, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 41, 48, 49, 56, 57, 63, 64, 65, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 383, 384, 385, 511, 512, 513, 767, 768, 769, 1023, 1024, 1025, 1535, 1536, 1537, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65536};
	int r = rn(10);
	if (mode == 2) return r < 5 ? 4096 * (1 + rn(6)) - rn(3) + rn(2) : r < 9 ? 4096 + rn(60000) : 9 + rn(4000);
	if (mode == 3) return r < 8 ? 4096 * (1 + rn(4000)) - rn(4096) + 4096 : r < 9 ? (64 << 20) - 1 - rn(9000) : 9 + rn(100);
	if (r < 5) return edge[rn(mode ? 58 : 50)];
	if (r < 9) return 9 + rn(250);
	return 9 + rn(4087);
}
static void drop(int k) { if (live[k].size >= 4096) sum_large -= live[k].size; live[k] = live[--nlive]; }
static void add(int size, int step) {
	uint8_t *p = gcAlloc(gc, size);
	CHECK(p != NULL, "no memory for %d bytes", size);
	if (!p) return;
	CHECK(((uintptr_t)p & 7) == 0, "%d bytes: the result is not aligned", size);
	CHECK(((scmHead *)p)->size == (uint32_t)size, "%d bytes: the recorded size is %u", size, ((scmHead *)p)->size);
	for (int i = 0; i < nlive; i++)
		if (p < live[i].p + live[i].size && live[i].p < p + size) { CHECK(0, "%d bytes at %p overlap object %d of %d bytes at %p that is in use", size, p, i, live[i].size, live[i].p); return; }
	Live *l = &live[nlive++];
	l->p = p; l->size = size; l->seed = rnd(); l->type = rn(2) ? scmHeadBytes : scmHeadVector;
	if (size >= 4096) sum_large += size;
	((scmHead *)p)->type = l->type;
	fill(l);
}
int main(void) {
	drv_init();
	gcRegistForType(scmHeadBytes, leaf);
	gcRegistForType(scmHeadVector, leaf);
	for (int rep = 0; time_left() && !n_fail && rep < (thorough ? 120 : 36); rep++) {
		// memory of earlier heaps is kept by the process: few of them with huge objects
		int mode = rep % 4 == 3 ? (rep % 8 == 3 ? 3 : 2) : rep % 3, collect = rep % 5 != 4;
		gc = gcInit();
		nlive = 0; sum_large = 0;
		int steps = mode == 3 ? 300 : mode == 2 ? 12000 : 40000, target = mode == 3 ? 6 : mode == 2 ? 150 : 20 + rn(MAXLIVE - 200);
		if (!collect) { steps = MAXLIVE - 10; target = MAXLIVE; }
		if (mode == 3 && !collect) steps = 40;
		int rounds = 0;
		for (int s = 0; s < steps && !n_fail; s++) {
			int size = pick_size(mode);
			CASE("heap %d (kind %d, collections %s), step %d: allocate %d bytes with %d objects in use, %d collections so far", rep, mode, collect ? "on" : "off", s, size, nlive, rounds);
			if (collect && (gcTriggerCheck(gc))) { gcMarkRoot(gc, roots, NULL); rounds++; }
			if (nlive < MAXLIVE - 2) add(size, s);
			// forget objects: single ones, and now and then many at once
			while (nlive > target || (nlive > 1 && sum_large > (300L << 20))) drop(rn(nlive));
			if (rn(5) == 0 && nlive) drop(rn(nlive));
			if (rn(mode == 3 ? 60 : 3000) == 0) { int keep = rn(nlive + 1); while (nlive > keep) drop(rn(nlive)); }
			if (nlive) { int k = rn(nlive); verify(&live[k], k); }
			if (s % 1500 == 0) for (int k = 0; k < nlive && !n_fail; k++) verify(&live[k], k);
		}
		for (int k = 0; k < nlive && !n_fail; k++) verify(&live[k], k);
		DISTINCT();
	}
	return drv_done("an object that is in use keeps its bytes, its type and its size and overlaps no other one, under random allocation, forgetting and collection");
}
