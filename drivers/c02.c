#include "common.h"
#include "vm.h"
#undef assert
#define M53 (1L << 53)
static int big(__int128 v) { return v > M53 || v < -M53; }
static void two(int64_t a, int64_t b) {
	Obj x = makeNumber(a), y = makeNumber(b);
	CASE("integers %ld and %ld", a, b);
	DISTINCT();
	__int128 s = (__int128)a + b, d = (__int128)a - b, m = (__int128)a * b;
	if (!big(s)) {
		CHECK(fixnum(PRIM_ADD(x, y)) == s, "PRIM_ADD gives %ld", fixnum(PRIM_ADD(x, y)));
		CHECK(fixnum(primAdd(x, y)) == s, "primAdd gives %ld", fixnum(primAdd(x, y)));
	}
	if (!big(d)) {
		CHECK(fixnum(PRIM_SUB(x, y)) == d, "PRIM_SUB gives %ld", fixnum(PRIM_SUB(x, y)));
		CHECK(fixnum(primSub(x, y)) == d, "primSub gives %ld", fixnum(primSub(x, y)));
	}
	if (!big(m)) {
		CHECK(fixnum(PRIM_MUL(x, y)) == m, "PRIM_MUL gives %ld", fixnum(PRIM_MUL(x, y)));
		CHECK(fixnum(primMul(x, y)) == m, "primMul gives %ld", fixnum(primMul(x, y)));
	}
	if (b != 0) {
		int ok = !STOPS(primDiv(x, y));
		CHECK(ok && fixnum(primDiv(x, y)) == a / b, "primDiv gives %ld", ok ? fixnum(primDiv(x, y)) : -1);
	}
	CHECK((PRIM_GT(x, y) == True) == (a > b) && (PRIM_GT(x, y) == False) == !(a > b), "PRIM_GT");
	CHECK((primGT(x, y) == True) == (a > b) && (primGT(x, y) == False) == !(a > b), "primGT");
	CHECK((PRIM_LT(x, y) == True) == (a < b) && (PRIM_LT(x, y) == False) == !(a < b), "PRIM_LT");
	CHECK((primLT(x, y) == True) == (a < b) && (primLT(x, y) == False) == !(a < b), "primLT");
	CHECK((PRIM_EQ(x, y) == True) == (a == b) && (PRIM_EQ(x, y) == False) == !(a == b), "PRIM_EQ");
	CHECK((primEQ(x, y) == True) == (a == b) && (primEQ(x, y) == False) == !(a == b), "primEQ");
}
int main(void) {
	drv_init();
	vm_init();
	int64_t vals[600];
	int n = 0;
	for (int v = -12; v <= 12; v++) vals[n++] = v;
	for (int b = 4; b <= 53; b++)
		for (int d = -1; d <= 1; d++) {
			int64_t v = (1L << b) + d;
			if (v > M53) continue;
			vals[n++] = v;
			vals[n++] = -v;
		}
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) two(vals[i], vals[j]);
	for (int i = 0; i < (thorough ? 3000000 : 200000); i++) {
		int64_t a = (int64_t)(rnd() >> (11 + rn(53))), b = (int64_t)(rnd() >> (11 + rn(53)));
		if (i & 1) a = -a;
		if (i & 2) b = -b;
		if (big(a) || big(b)) continue;
		two(a, b);
	}
	double h = 2.5, inf = 1.0 / 0.0;
	Obj bad[] = {True, False, Nil, Undef, intern("a"), makeString(vm->gc, "1", 1), makeCons(vm->gc, makeNumber(1), Nil),
		makeVector(vm->gc, 1, 1), *(Obj *)&h};
	const char *bn[] = {"true", "false", "nil", "undef", "symbol", "string", "pair", "vector", "2.5"};
	for (int i = 0; i < 9; i++)
		for (int k = 0; k < 2; k++) {
			Obj x = k ? makeNumber(3) : bad[i], y = k ? bad[i] : makeNumber(3);
			CASE("arithmetic on %s as operand %d", bn[i], k + 1);
#define ST(e) CHECK(STOPS(e), #e " yields a value")
			ST(PRIM_ADD(x, y)); ST(PRIM_SUB(x, y)); ST(PRIM_MUL(x, y)); ST(PRIM_GT(x, y)); ST(PRIM_LT(x, y));
			ST(primAdd(x, y)); ST(primSub(x, y)); ST(primMul(x, y)); ST(primDiv(x, y)); ST(primGT(x, y)); ST(primLT(x, y));
		}
	for (int64_t a = -3; a <= 3; a++) {
		CASE("division of %ld by zero", a);
		CHECK(STOPS(primDiv(makeNumber(a), makeNumber(0))), "yields a value");
	}
	return drv_done("all pairs of small integers and of integers next to powers of two up to 2^53, random pairs, all kinds of wrong operands; distinct by pair");
}
