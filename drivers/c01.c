#include "common.h"
#include "vm.h"
#undef assert
static const char *names[] = {"number", "boolean", "nil", "undef", "symbol", "string", "pair", "function", "cobj", "vector", "other"};
static void nop(Cora *co, int l, Obj *R) {}
static void check(Obj o, int kind) {
	int is[11];
	CASE("value %016lx, made as a %s", o, names[kind]);
	is[0] = isNumber(o); is[1] = isboolean(o); is[2] = o == Nil; is[3] = o == Undef; is[4] = issymbol(o);
	is[5] = isBytes(o); is[6] = iscons(o); is[7] = isScmHead(o) && tag(o) == TAG_NATIVE; is[8] = iscobj(o);
	is[9] = isvector(o); is[10] = 0;
	for (int i = 0; i < 11; i++) CHECK((is[i] != 0) == (i == kind), "predicate %s answers %d", names[i], is[i] != 0);
	CHECK((consp(o) == True) == (kind == 6) && (consp(o) == True || consp(o) == False), "consp");
	CHECK((primIsCons(o) == True) == (kind == 6), "primIsCons");
	CHECK((primIsSymbol(o) == True) == (kind == 4), "primIsSymbol");
	CHECK((primIsString(o) == True) == (kind == 5), "primIsString");
	CHECK((PRIM_ISCONS(o) == True) == (kind == 6), "PRIM_ISCONS");
	CHECK((VMCALL("number?", o) == True) == (kind == 0), "number? answers wrongly");
	CHECK((VMCALL("vector?", o) == True) == (kind == 9), "vector? answers wrongly");
	if (kind == 1) CHECK(primNot(o) == (o == True ? False : True) && primNot(primNot(o)) == o, "not");
	DISTINCT();
}
static void checkInt(int64_t v) {
	Obj o = makeNumber(v);
	check(o, 0);
	CASE("integer %ld", v);
	CHECK(isfixnum(o), "is not an integer after encoding");
	CHECK(fixnum(o) == v, "reads back as %ld", fixnum(o));
	CHECK(o == makeNumber(v), "two encodings differ");
}
int main(void) {
	drv_init();
	vm_init();
	GC *gc = vm->gc;
	Obj kinds[] = {makeNumber(7), True, False, Nil, Undef, intern("abc"), makeString(gc, "xy", 2), makeCons(gc, Nil, Nil),
		makeNative(gc, 2, nop, 1, 0), makeCObj((void *)0x12345678), makeVector(gc, 2, 4)};
	int kk[] = {0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9};
	for (int i = 0; i < 11; i++) check(kinds[i], kk[i]);
	check(primGenSym(vm), 4);
	check(makeString(gc, "", 0), 5);
	for (int i = 0; i < 11; i++)
		for (int j = 0; j < 11; j++) if (i != j) { CASE("kinds %d and %d", i, j); CHECK(kinds[i] != kinds[j], "same word"); }
	for (int64_t v = -300; v <= 300; v++) checkInt(v);
	for (int b = 0; b <= 53; b++)
		for (int d = -3; d <= 3; d++) {
			int64_t v = ((int64_t)1 << b) + d;
			if (v > ((int64_t)1 << 53)) continue;
			checkInt(v);
			checkInt(-v);
		}
	for (int i = 0; i < 20000; i++) {
		int64_t v = (int64_t)(rnd() >> (10 + rn(54)));
		if (v > ((int64_t)1 << 53)) continue;
		checkInt(i & 1 ? v : -v);
	}
	for (int i = 0; i < 2000; i++) {
		double d = (double)(int64_t)(rnd() >> 20) / (1 + rn(1000)) * (i & 1 ? 1 : -1);
		Obj o = *(Obj *)&d;
		check(o, 0);
		CASE("double %g", d);
		CHECK(isfixnum(o) == (d == (double)(int64_t)d), "integer test");
	}
	for (int i = 0; i < 5000; i++) {
		uint64_t a = (rnd() >> 16) & ~7UL;
		if (i < 48) a = (1UL << i) & ~7UL;
		CASE("address %lx", a);
		for (int t = 1; t < 8; t++) {
			Obj o = makeNaNPtr((void *)a, t);
			CHECK(ptr(o) == (void *)a && tag(o) == t && isobj(o), "tag %d: word %lx", t, o);
		}
		Obj o = makeCObj((void *)a);
		CHECK(mustCObj(o) == (void *)a && iscobj(o), "C object handle");
	}
	Obj bad[] = {makeNumber(3), True, Nil, intern("q"), makeString(gc, "s", 1), makeCons(gc, Nil, Nil)};
	for (int i = 1; i < 6; i++) {
		CASE("using value %lx as a C object", bad[i]);
		CHECK(STOPS(mustCObj(bad[i])), "accepted");
	}
	CASE("not of a number");
	CHECK(STOPS(primNot(makeNumber(0))), "accepted");
	return drv_done("one value of every kind, integers around every power of two and random ones, random doubles and addresses; distinct by value");
}
