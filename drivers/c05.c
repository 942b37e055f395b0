#include "common.h"
#include "vm.h"
#undef assert
// the values of the driver are no roots: no collection here (C11 is about collections)
bool __wrap_gcTriggerCheck(GC *gc) { return false; }
extern int vectorCapacity(Obj v);
#define MAXN 6000
static Obj *ref[40];
static int len[40];
static Obj vec[40];
static int nv;
static Obj any(void) { int k = rn(8); return k < 3 ? makeNumber((long)(rnd() >> 30) - (1L << 33)) : k == 3 ? makeString(vm->gc, "xyz", rn(4)) : k == 4 ? makeCons(vm->gc, Nil, True) : k == 5 && nv ? vec[rn(nv)] : (Obj[]){True, False, Nil, Undef}[rn(4)]; }
static void look(int j) {
	CHECK(isvector(vec[j]) && vectorLength(vec[j]) == len[j], "vector %d has length %d, not %d", j, vectorLength(vec[j]), len[j]);
	for (int i = 0; i < len[j]; i++) if (vectorRef(vec[j], i) != ref[j][i]) { CHECK(0, "vector %d, index %d: not the value stored", j, i); break; }
}
int main(void) {
	drv_init();
	vm_init();
	GC *gc = vm->gc;
	int rounds = thorough ? 40 : 6;
	for (int r = 0; r < rounds; r++) {
		nv = 0;
		for (int j = 0; j < 12; j++) {
			int n = rn(3) ? rn(9) : rn(1300), cap = n + (rn(2) ? 1 : rn(50) + 1);
			if (rn(3) == 0 && n) cap = n;
			CASE("new vector of length %d, capacity %d", n, cap);
			vec[j] = makeVector(gc, n, cap);
			len[j] = n;
			ref[j] = malloc(MAXN * sizeof(Obj));
			for (int i = 0; i < n; i++) ref[j][i] = Undef;
			nv = j + 1;
			look(j);
			DISTINCT();
		}
		for (int s = 0; s < (thorough ? 9000 : 3000); s++) {
			int j = rn(nv), op = rn(10);
			Obj x = any();
			if (op < 4 && len[j] < MAXN - 1) {
				int times = rn(5) ? 1 : rn(90);
				for (int t = 0; t < times && len[j] < MAXN - 1; t++) {
					x = any();
					CASE("round %d step %d: append to vector %d of length %d (capacity %d)", r, s, j, len[j], vectorCapacity(vec[j]));
					vec[j] = vectorAppend(gc, vec[j], x);
					ref[j][len[j]++] = x;
					CHECK(vectorLength(vec[j]) == len[j] && vectorCapacity(vec[j]) >= len[j], "length after append");
					CHECK(vectorRef(vec[j], len[j] - 1) == x, "the appended value is not last");
				}
			} else if (op < 9 && len[j]) {
				int i = rn(4) ? rn(len[j]) : rn(2) ? 0 : len[j] - 1;
				CASE("round %d step %d: vector %d of length %d, set index %d", r, s, j, len[j], i);
				Obj q = rn(2) ? vectorSet(gc, vec[j], i, x) : VMCALL("vector-set!", vec[j], makeNumber(i), x);
				ref[j][i] = x;
				CHECK(q == vec[j], "result of set");
				CHECK(vectorRef(vec[j], i) == x && VMCALL("vector-ref", vec[j], makeNumber(i)) == x, "the value just stored");
			}
			CHECK(vectorLength(vec[j]) == len[j] && VMCALL("vector-length", vec[j]) == makeNumber(len[j]), "length");
			if (s % 5 == 0) look(rn(nv));
			if (s % 200 == 0) for (int k = 0; k < nv; k++) look(k);
			if (s % 50 == 0) {
				CASE("vector %d of length %d, outside index", j, len[j]);
				int bad[] = {-1, len[j], len[j] + 1, -2147483647 - 1, 2147483647, vectorCapacity(vec[j]), len[j] + 17};
				for (int k = 0; k < 7; k++) {
					if (bad[k] >= 0 && bad[k] < len[j]) continue;
					CHECK(STOPS(vectorRef(vec[j], bad[k])), "no stop reading index %d", bad[k]);
					CHECK(STOPS(vectorSet(gc, vec[j], bad[k], x)), "no stop storing at index %d", bad[k]);
				}
			}
		}
		for (int j = 0; j < nv; j++) free(ref[j]);
	}
	Obj v = makeVector(gc, 3, 3);
	long far[] = {1L << 32, (1L << 32) + 1, -(1L << 32), (1L << 33) + 2, 1L << 52, 3, -1};
	for (int k = 0; k < 7; k++) {
		CASE("builtins on a vector of 3, index %ld", far[k]);
		CHECK(STOPS(VMCALL("vector-ref", v, makeNumber(far[k]))), "vector-ref does not stop");
		CHECK(STOPS(VMCALL("vector-set!", v, makeNumber(far[k]), Nil)), "vector-set! does not stop");
	}
	CASE("new vectors of impossible sizes");
	CHECK(STOPS(VMCALL("vector", makeNumber(-1))) && STOPS(VMCALL("vector", makeNumber(1L << 32))) && STOPS(makeVector(gc, 3, 2)) && STOPS(makeVector(gc, -1, 2)) && STOPS(makeVector(gc, 0, 1 << 29)), "no stop");
	for (int n = 0; n < 600; n++) {
		CASE("(vector %d)", n);
		Obj w = VMCALL("vector", makeNumber(n));
		CHECK(vectorLength(w) == n && VMCALL("vector?", w) == True, "length");
		for (int i = 0; i < n; i++) CHECK(vectorRef(w, i) == Undef, "element %d", i);
	}
	return drv_done("random sequences of append, set and reference over a dozen vectors of several lengths and capacities against plain arrays, also through the builtins; indexes outside the length, also far outside int");
}
