#include "common.h"
#include "vm.h"
#undef assert
// every object made is recorded with what it was made with; all are read back again and again
typedef struct { int kind; Obj o; Obj a, b; int n; char *bytes; Obj *cap; void *fn; int req; } Rec;
static Rec rec[20000];
static int nr;
static void f0(Cora *co, int l, Obj *R) {}
static void f1(Cora *co, int l, Obj *R) {}
static const char *kn[] = {"pair", "string", "byte buffer", "function", "C object"};
static Obj any(void) { return nr && rn(3) ? rec[rn(nr)].o : rn(2) ? makeNumber(rn(1000) - 500) : (Obj[]){True, False, Nil, Undef}[rn(4)]; }
static void look(int i) {
	Rec *r = &rec[i];
	CASE("object %d (a %s of %d) among %d", i, kn[r->kind], r->n, nr);
	switch (r->kind) {
	case 0:
		CHECK(iscons(r->o) && car(r->o) == r->a && cdr(r->o) == r->b, "head or tail");
		CHECK(PRIM_CAR(r->o) == r->a && PRIM_CDR(r->o) == r->b && primCar(r->o) == r->a && primCdr(r->o) == r->b, "primitive head or tail");
		break;
	case 1: case 2: {
		str s = stringStr(r->o);
		CHECK(isBytes(r->o) && bytesLen(r->o) == r->n && s.len == r->n, "length %d", bytesLen(r->o));
		CHECK(bytesData(r->o) == s.str && !memcmp(s.str, r->bytes, r->n), "bytes");
		CHECK(r->kind == 2 || s.str[r->n] == 0, "terminator");
		break; }
	case 3:
		CHECK(nativeCaptured(r->o) == r->n && nativeRequired(r->o) == r->req && (void *)nativeFn(r->o) == r->fn && mustNative(r->o)->nframe == r->req + 1, "code or arity");
		CHECK(r->n ? nativeData(r->o) != NULL && !memcmp(nativeData(r->o), r->cap, r->n * sizeof(Obj)) : nativeData(r->o) == NULL, "captured values");
		for (int k = 0; k < r->n; k++) CHECK(closureRef(r->o, k) == r->cap[k], "captured value %d", k);
		break;
	case 4: CHECK(iscobj(r->o) && mustCObj(r->o) == r->fn, "pointer"); break;
	}
}
static void mk(void) {
	Rec r = {0};
	GC *gc = vm->gc;
	r.kind = rn(5);
	switch (r.kind) {
	case 0: r.a = any(); r.b = any(); CASE("pair"); r.o = rn(2) ? makeCons(gc, r.a, r.b) : primCons(vm, r.a, r.b); break;
	case 1: case 2:
		r.n = rn(4) ? rn(70) : rn(8) ? rn(3000) : rn(20000);
		r.bytes = malloc(r.n + 1);
		for (int i = 0; i < r.n; i++) r.bytes[i] = rn(256);
		CASE("%s of %d bytes", kn[r.kind], r.n);
		if (r.kind == 1) {
			char *src = malloc(r.n ? r.n : 1);
			memcpy(src, r.bytes, r.n);
			if (rn(4) == 0) {
				for (int i = 0; i < r.n; i++) if (!r.bytes[i]) r.bytes[i] = 'x';
				r.bytes[r.n] = 0;
				r.o = makeCString(gc, r.bytes);
			} else r.o = makeString(gc, src, r.n);
			free(src);
		} else { r.o = makeBytes(gc, r.n); memcpy(bytesData(r.o), r.bytes, r.n); }
		break;
	case 3: {
		Obj v[9];
		r.n = rn(9); r.req = rn(6); r.fn = rn(2) ? f0 : f1;
		for (int i = 0; i < 9; i++) v[i] = any();
		r.cap = malloc(sizeof v); memcpy(r.cap, v, sizeof v);
		CASE("function of %d with %d captured", r.req, r.n);
		r.o = makeNative(gc, r.req + 1, r.fn, r.req, r.n, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]);
		break; }
	case 4: r.fn = (void *)(rnd() & 0x7FFFFFFFFFF8ULL); CASE("C object"); r.o = makeCObj(r.fn); break;
	}
	rec[nr++] = r;
	DISTINCT();
	look(nr - 1);
}
int main(void) {
	drv_init();
	vm_init();
	int n = thorough ? 15000 : 3500;
	for (int i = 0; i < n; i++) {
		mk();
		for (int k = 0; k < 3; k++) look(rn(nr));
		if (i % 500 == 499) for (int k = 0; k < nr; k++) look(k);
	}
	// parts of parts
	for (int i = 0; i < 2000; i++) {
		Obj a = any(), b = any(), c = any(), d = any(), l = makeCons(vm->gc, a, makeCons(vm->gc, b, makeCons(vm->gc, c, d)));
		CASE("list of three");
		CHECK(cadr(l) == b && caddr(l) == c && cdddr(l) == d, "cadr, caddr, cdddr");
	}
	// other kinds stop
	GC *gc = vm->gc;
	Obj kinds[] = {makeCons(gc, Nil, Nil), makeString(gc, "abc", 3), makeNative(gc, 2, f0, 1, 1, Nil), makeVector(gc, 2, 3), primGenSym(vm)};
	for (int i = 0; i < 5; i++) {
		Obj o = kinds[i];
		CASE("an object of kind %d read as another kind", i);
		CHECK(STOPS(car(o)) == (i != 0) && STOPS(cdr(o)) == (i != 0) && STOPS(primCar(o)) == (i != 0) && STOPS(primCdr(o)) == (i != 0), "head or tail");
		CHECK(STOPS(bytesData(o)) == (i != 1) && STOPS(bytesLen(o)) == (i != 1) && STOPS(stringStr(o)) == (i != 1), "bytes");
		CHECK(STOPS(mustNative(o)) == (i != 2) && STOPS(nativeData(o)) == (i != 2) && STOPS(nativeCaptured(o)) == (i != 2) && STOPS(nativeFn(o)) == (i != 2) && STOPS(nativeRequired(o)) == (i != 2), "function");
		CHECK(STOPS(vectorRef(o, 0)) == (i != 3) && STOPS(vectorLength(o)) == (i != 3), "vector");
		CHECK(STOPS(mustCObj(o)), "C object");
	}
	CASE("C objects must be aligned");
	for (long a = 1; a < 8; a++) CHECK(STOPS(makeCObj((void *)(0x5000 + a))), "no stop for offset %ld", a);
	return drv_done("random pairs, strings, buffers, functions and handles, all read back after each further construction in samples and in full sweeps; accessors on every other kind");
}
