#include "common.h"
#include "vm.h"
#undef assert
// reference values: trees built twice, at different addresses
typedef struct T { int kind; long n; int len; char b[40]; struct T *l, *r; } T;
static void nop(Cora *co, int l, Obj *R) {}
static Obj fixed[12];
static T *tree(int depth) {
	T *t = calloc(1, sizeof *t);
	t->kind = depth > 0 ? (rn(3) ? 9 : rn(9)) : rn(9);
	switch (t->kind) {
	case 0: t->n = rn(5) - 2; break;
	case 1: t->n = (long)(rnd() % (1UL << 53)) * (rn(2) ? 1 : -1); break;
	case 2: case 3: t->n = rn(12); break;             // symbols, constants and objects
	case 4: case 5: case 6: t->len = rn(4) ? rn(4) : rn(40); for (int i = 0; i < t->len; i++) t->b[i] = rn(3) ? "ab"[rn(2)] : rn(256); break;
	case 7: case 8: t->n = rn(12); break;
	case 9: t->l = tree(depth - 1 - rn(3)); t->r = tree(depth - 1); break;
	}
	return t;
}
static T *copy(T *t) { T *c = malloc(sizeof *c); *c = *t; if (t->kind == 9) { c->l = copy(t->l); c->r = copy(t->r); } return c; }
static Obj build(T *t) {
	switch (t->kind) {
	case 0: case 1: return makeNumber(t->n);
	case 4: case 5: case 6: return makeString(vm->gc, t->b, t->len);
	case 9: { Obj a = build(t->l), b = build(t->r); return makeCons(vm->gc, a, b); }
	default: return fixed[t->n];
	}
}
static int same(T *a, T *b) {
	int ka = a->kind == 9 ? 3 : a->kind >= 4 && a->kind <= 6 ? 2 : a->kind < 2 ? 1 : 0, kb = b->kind == 9 ? 3 : b->kind >= 4 && b->kind <= 6 ? 2 : b->kind < 2 ? 1 : 0;
	if (ka != kb) return 0;
	if (ka == 3) return same(a->l, b->l) && same(a->r, b->r);
	if (ka == 2) return a->len == b->len && !memcmp(a->b, b->b, a->len);
	return a->n == b->n;
}
static int intact(T *t, Obj o) {
	if (t->kind == 9) return iscons(o) && intact(t->l, car(o)) && intact(t->r, cdr(o));
	if (t->kind >= 4 && t->kind <= 6) return isBytes(o) && bytesLen(o) == t->len && !memcmp(bytesData(o), t->b, t->len);
	return o == build(t);
}
static char txt[3000]; static int tl;
static void show(T *t) {
	if (tl > 2800) return;
	switch (t->kind) {
	case 0: case 1: tl += sprintf(txt + tl, "%ld", t->n); break;
	case 9: txt[tl++] = '('; show(t->l); tl += sprintf(txt + tl, " . "); show(t->r); txt[tl++] = ')'; break;
	case 4: case 5: case 6: txt[tl++] = '"'; for (int i = 0; i < t->len; i++) tl += sprintf(txt + tl, t->b[i] >= 'a' && t->b[i] <= 'b' ? "%c" : "\\%02x", t->b[i] & 255); txt[tl++] = '"'; break;
	default: tl += sprintf(txt + tl, "#%ld", t->n);
	}
}
static void leaf(T *t, T **out) { while (t->kind == 9 && rn(4)) t = rn(2) ? t->l : t->r; *out = t; }
static void one(T *a, T *b) {
	Obj x = build(a), y = build(b);
	int s = same(a, b);
	tl = 0; show(a); tl += sprintf(txt + tl, "  and  "); show(b); txt[tl] = 0;
	CASE("%s", txt);
	DISTINCT();
	CHECK(eq(x, y) == s, "eq answers %d", eq(x, y));
	CHECK(eq(y, x) == s, "eq, swapped, answers %d", eq(y, x));
	CHECK(eq(x, x) && eq(y, y), "not equal to itself");
	CHECK(primEQ(x, y) == (s ? True : False), "primEQ");
	CHECK(PRIM_EQ(x, y) == (s ? True : False), "PRIM_EQ");
	CHECK(intact(a, x) && intact(b, y), "comparing changed a value");
}
int main(void) {
	drv_init();
	vm_init();
	GC *gc = vm->gc;
	Obj f[] = {True, False, Nil, Undef, intern("a"), intern("b"), makeNative(gc, 2, nop, 1, 0), makeNative(gc, 2, nop, 1, 0),
		makeCObj((void *)0x1000), makeCObj((void *)0x1008), makeVector(gc, 1, 2), makeVector(gc, 1, 2)};
	memcpy(fixed, f, sizeof f);
	for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) {
		CASE("constants and objects %d and %d", i, j);
		CHECK(eq(f[i], f[j]) == (i == j), "eq answers %d", eq(f[i], f[j]));
	}
	long n = thorough ? 400000 : 40000;
	for (long k = 0; k < n && time_left(); k++) {
		T *a = tree(rn(7)), *b = rn(4) ? copy(a) : tree(rn(7));
		if (rn(2)) {  // change one leaf
			T *l; leaf(b, &l);
			int how = rn(6);
			if (l->kind >= 4 && l->kind <= 6 && l->len && how < 2) l->b[rn(l->len)] ^= 1 << rn(8);
			else if (l->kind >= 4 && l->kind <= 6 && how == 2 && l->len < 40) l->b[l->len++] = rn(2) ? 0 : 'a';
			else if (l->kind >= 4 && l->kind <= 6 && how == 3 && l->len) l->len--;
			else if (l->kind == 9 && how < 3) { T *s = l->l; l->l = l->r; l->r = s; }
			else { T *s = tree(2); *l = *s; }
		}
		one(a, b);
	}
	// long lists: differ nowhere, or only at the end
	int len = thorough ? 20000 : 3000;
	Obj p = Nil, q = Nil, r = makeCons(gc, Nil, Nil);
	for (int i = 0; i < len; i++) { p = makeCons(gc, makeNumber(i), p); q = makeCons(gc, makeNumber(i), q); r = makeCons(gc, makeNumber(i), r); }
	CASE("lists of %d integers", len);
	CHECK(eq(p, q) && !eq(p, r) && !eq(r, p), "long lists");
	CASE("lists nested %d deep", len);
	Obj d = Nil, e = Nil, g = True;
	for (int i = 0; i < len; i++) { d = makeCons(gc, d, Nil); e = makeCons(gc, e, Nil); g = makeCons(gc, g, Nil); }
	CHECK(eq(d, e) && !eq(d, g), "deep lists");
	return drv_done("pairs of random trees of integers, strings, symbols, constants and objects: independently built copies, copies with one change, unrelated ones, against a structural reference; distinct by pair");
}
