// the string library against reference functions on byte arrays
#include "common.h"
#include "vm.h"
#undef assert
bool __wrap_gcTriggerCheck(GC *gc) { return false; }
void entry(Cora *co, int label, Obj *R);
typedef struct { int n; unsigned char *b; Obj o; } T;
static T some(int max) {
	T t;
	int k = rn(4);
	t.n = rn(6) ? rn(8) : rn(max);
	t.b = malloc(t.n + 1);
	for (int i = 0; i < t.n; i++) t.b[i] = k == 0 ? rn(256) : k == 1 ? "ab"[rn(2)] : k == 2 ? "a/\xff"[rn(3)] : "aaab"[rn(4)];
	t.b[t.n] = 0;
	return t;
}
static T part(T a) {  // often a part of a
	T t;
	if (rn(3) == 0) return some(6);
	int x = rn(a.n + 1), l = rn(4) ? rn(4) : rn(a.n + 1);
	if (x + l > a.n) l = a.n - x;
	t.n = l;
	t.b = malloc(l + 1);
	memcpy(t.b, a.b + x, l);
	t.b[l] = 0;
	return t;
}
static T fix(T t) { t.o = makeString(vm->gc, (char *)t.b, t.n); return t; }
static int find(const unsigned char *a, int n, const unsigned char *b, int m) {
	for (int i = 0; i + m <= n; i++) if (!memcmp(a + i, b, m)) return i;
	return -1;
}
static char *show(T t) {
	static char out[6][200];
	static int w;
	char *p = out[w = (w + 1) % 6], *q = p;
	for (int i = 0; i < t.n && q < p + 150; i++) q += t.b[i] > 32 && t.b[i] < 127 ? sprintf(q, "%c", t.b[i]) : sprintf(q, "\\%d.", t.b[i]);
	*q = 0;
	return p;
}
static int is(Obj o, const unsigned char *b, int n) { return isBytes(o) && bytesLen(o) == n && !memcmp(bytesData(o), b, n) && bytesData(o)[n] == 0; }
static Obj *sp0, *bp0;
static int base;
#define RUN(name, ...) ({ Obj r_ = VMCALL("str#" name, __VA_ARGS__); r_; })
#define UNCHANGED(t) CHECK(is((t).o, (t).b, (t).n), "an argument was modified")
static long sgn(long x) { return x < 0 ? -1 : x > 0; }
static int isnum(Obj o, int64_t v) { return isfixnum(o) && fixnum(o) == v; }
int main(void) {
	drv_init();
	int steps = thorough ? 900000 : 120000;
	for (int i = 0; i < steps && time_left() && !n_fail; i++) {
		if (i % 4000 == 0) {
			vm_init();
			Obj R[3] = {Nil, Nil, makeString(vm->gc, "str", 3)};
			saveCont(vm, NULL, 0, vm->ctx.bp);
			entry(vm, 0, R);
		}
		int big = rn(200) == 0;
		T a = fix(some(big ? 6000 : 40)), b = fix(part(a)), c = fix(some(big ? 2000 : 12));
		int op = rn(14);
		CASE("step %d op %d: \"%s\" \"%s\" \"%s\"", i, op, show(a), show(b), show(c));
		switch (op) {
		case 0: {
			int64_t s = rn(a.n * 2 + 4) - a.n - 2, e = rn(a.n * 2 + 4) - a.n - 2;
			if (rn(60) == 0) s += 1LL << 32;
			if (rn(60) == 0) e -= 1LL << 33;
			CASE("string-slice \"%s\" %ld %ld", show(a), (long)s, (long)e);
			int64_t s1 = s < 0 ? s + a.n : s, e1 = e < 0 ? e + a.n : e;
			Obj r = RUN("string-slice", a.o, makeNumber(s), makeNumber(e));
			if (s1 < 0 || e1 > a.n || e1 < s1) CHECK(is(r, a.b, 0), "outside: not empty");
			else CHECK(is(r, a.b + s1, e1 - s1), "another slice");
			break;
		}
		case 1: CHECK(RUN("has-prefix?", a.o, b.o) == (b.n <= a.n && !memcmp(a.b, b.b, b.n) ? True : False), "has-prefix?"); break;
		case 2: CHECK(isnum(RUN("string-length", a.o), a.n) && isnum(VMCALL("bytes-length", a.o), a.n), "string-length"); break;
		case 3: {
			int64_t k = rn(a.n + 4) - 2 + (rn(50) == 0 ? 1LL << 32 : 0);
			CASE("string-index \"%s\" %ld", show(a), (long)k);
			if (k < 0 || k >= a.n) { if (rn(20) == 0) CHECK(STOPS(RUN("string-index", a.o, makeNumber(k))), "string-index outside does not stop"); }
			else CHECK(is(RUN("string-index", a.o, makeNumber(k)), a.b + k, 1), "string-index");
			break;
		}
		case 4: {
			int l = a.n < b.n ? a.n : b.n, r = memcmp(a.b, b.b, l);
			if (!r) r = a.n - b.n;
			Obj o = RUN("compare", a.o, b.o);
			CHECK(isfixnum(o) && sgn(fixnum(o)) == sgn(r), "compare: %ld, expected sign %ld", isfixnum(o) ? (long)fixnum(o) : -99, sgn(r));
			break;
		}
		case 5: {
			int64_t v = (int64_t)(rnd() >> (11 + rn(53))) * (rn(2) ? 1 : -1);
			char t[40];
			sprintf(t, "%ld", (long)v);
			CASE("number->string %s", t);
			CHECK(is(RUN("number->string", makeNumber(v)), t, strlen(t)), "number->string");
			break;
		}
		case 6: {
			int f = find(a.b, a.n, b.b, b.n);
			CASE("string-replace \"%s\" \"%s\" \"%s\"", show(a), show(b), show(c));
			Obj r = RUN("string-replace", a.o, b.o, c.o);
			if (f < 0) CHECK(r == a.o, "absent: another text");
			else {
				int n = a.n - b.n + c.n;
				unsigned char *w = malloc(n + 1);
				memcpy(w, a.b, f);
				memcpy(w + f, c.b, c.n);
				memcpy(w + f + c.n, a.b + f + b.n, a.n - f - b.n);
				CHECK(is(r, w, n), "string-replace: another text");
				free(w);
			}
			break;
		}
		case 7: CHECK(RUN("string-contain?", a.o, b.o) == (find(a.b, a.n, b.b, b.n) < 0 ? False : True), "string-contain?"); break;
		case 8: case 13: {
			CASE("string-split \"%s\" \"%s\"", show(a), show(b));
			Obj r = RUN("string-split", a.o, b.o);
			unsigned char *p = a.b;
			int n = a.n, k = 0;
			for (;; k++) {
				int f = b.n ? find(p, n, b.b, b.n) : -1, l = f < 0 ? n : f;
				CHECK(iscons(r) && is(car(r), p, l), "string-split: piece %d", k);
				if (!iscons(r)) break;
				r = cdr(r);
				if (f < 0) break;
				p += f + b.n;
				n -= f + b.n;
			}
			CHECK(r == Nil, "string-split: too many pieces");
			break;
		}
		case 9: {
			int64_t s = rn(c.n + 2) - (rn(20) == 0), x = rn(a.n + 2) - (rn(20) == 0), y = rn(c.n + 2) - (rn(20) == 0);
			if (rn(60) == 0) x += 1LL << 32;
			CASE("memcpy to \"%s\" at %ld from \"%s\" at %ld, %ld bytes", show(a), (long)x, show(c), (long)y, (long)s);
			if (s < 0 || x < 0 || y < 0 || x + s > a.n || y + s > c.n) { if (rn(20) == 0) CHECK(STOPS(RUN("memcpy", a.o, makeNumber(x), c.o, makeNumber(y), makeNumber(s))), "memcpy outside does not stop"); }
			else {
				RUN("memcpy", a.o, makeNumber(x), c.o, makeNumber(y), makeNumber(s));
				memcpy(a.b + x, c.b + y, s);
			}
			break;
		}
		case 10: {
			int k = rn(a.n + 3) - 1;
			CASE("byte-ref \"%s\" %d", show(a), k);
			if (k < 0 || k >= a.n) { if (rn(20) == 0) CHECK(STOPS(RUN("byte-ref", a.o, makeNumber(k))), "byte-ref outside does not stop"); }
			else CHECK(isnum(RUN("byte-ref", a.o, makeNumber(k)), a.b[k]), "byte-ref");
			break;
		}
		case 11: {
			CASE("string->list \"%s\"", show(a));
			Obj r = RUN("string->list", a.o);
			for (int j = 0; j < a.n; j++, r = cdr(r)) { CHECK(iscons(r) && isnum(car(r), a.b[j]), "string->list: element %d", j); if (!iscons(r)) break; }
			CHECK(r == Nil, "string->list: too many elements");
			break;
		}
		case 12: {
			unsigned char *w = malloc(a.n + c.n + 1);
			memcpy(w, a.b, a.n);
			memcpy(w + a.n, c.b, c.n);
			CASE("string-append \"%s\" \"%s\"", show(a), show(c));
			CHECK(is(VMCALL("string-append", a.o, c.o), w, a.n + c.n), "string-append");
			free(w);
			break;
		}
		}
		UNCHANGED(a);
		UNCHANGED(b);
		UNCHANGED(c);
		free(a.b);
		free(b.b);
		free(c.b);
		DISTINCT();
	}
	return drv_done("every operation of the string library equals the operation on byte sequences and leaves its arguments alone");
}
