#include "common.h"
#include "vm.h"
#undef assert
// the values of the driver are no roots: no collection here (C11 is about collections)
bool __wrap_gcTriggerCheck(GC *gc) { return false; }
extern Obj coraSymbolGet(Cora *co, Obj sym);
extern Obj coraPrimSet(Cora *co, Obj key, Obj val);
#define MAXN 9000
static Obj sym[MAXN], val[MAXN];
static Binding bind[MAXN];
static char bound[MAXN], gen[MAXN], *nm[MAXN];
static int n;
static Obj any(void) { int k = rn(9); return k < 3 ? makeNumber((long)(rnd() >> 30) - (1L << 33)) : k == 3 ? makeString(vm->gc, "xyz", rn(4)) : k == 4 ? makeCons(vm->gc, Nil, True) : k == 5 && n ? sym[rn(n)] : k == 6 ? makeVector(vm->gc, 2, 2) : (Obj[]){True, False, Nil}[rn(3)]; }
static void fresh_name(void) {
	char b[600];
	int k = rn(5);
	if (k == 0) sprintf(b, "v%d", n);
	else if (k == 1) sprintf(b, "cora/lib/a-rather-long-package-name-%d#variable-%d", n % 7, n);
	else if (k == 2 && n && nm[n - 1]) { strcpy(b, nm[n - 1]); if (strlen(b) > 500) b[5] = 0; sprintf(b + strlen(b), "%c", "!?*x"[rn(4)]); }
	else { int l = 1 + rn(30); for (int i = 0; i < l; i++) b[i] = 33 + rn(90); sprintf(b + l, "%d", n); }
	if (rn(8) == 0) { sym[n] = primGenSym(vm); gen[n] = 1; nm[n] = 0; val[n] = Nil; }
	else {
		Obj s = intern(b);
		for (int j = 0; j < n; j++) if (sym[j] == s) return;
		sym[n] = s; nm[n] = strdup(b); val[n] = Undef;
		if (rn(2)) { bind[n] = bindSymbol(vm, s); bound[n] = 1; CHECK(bind[n].name == s, "the binding of %s names another symbol", b); }
	}
	n++;
}
static void look(int j, int how) {
	char *w = gen[j] ? "(generated)" : nm[j];
	if (how == 0) CHECK(symbolGet(vm, sym[j]) == val[j], "variable %d %s: symbolGet gives another value", j, w);
	if (how == 1) CHECK(coraSymbolGet(vm, sym[j]) == val[j], "variable %d %s: coraSymbolGet gives another value", j, w);
	if (how == 2 && val[j] != Undef) CHECK(VMCALL("value", sym[j]) == val[j], "variable %d %s: value gives another value", j, w);
	if (how == 3) { Obj d = makeNumber(77); Obj r = VMCALL("value-or", sym[j], d); CHECK(r == (val[j] == Undef ? d : val[j]), "variable %d %s: value-or gives another value", j, w); }
	if (how == 4 && !gen[j]) {
		Binding b = bindSymbol(vm, sym[j]);
		CHECK(b.name == sym[j] && (!bound[j] || b.idx == bind[j].idx), "variable %d %s: the binding changed", j, w);
		CHECK(globalRef(vm, b) == val[j], "variable %d %s: globalRef gives another value", j, w);
	}
	if (how == 5 && bound[j]) CHECK(globalRef(vm, bind[j]) == val[j], "variable %d %s: globalRef of an early binding gives another value", j, w);
}
static void nop(Cora *co, int label, Obj *R) { coraReturn(co, R[1]); }
int main(void) {
	drv_init();
	vm_init();
	int steps = thorough ? 400000 : 60000, lim = thorough ? MAXN : 4000;
	for (int s = 0; s < steps; s++) {
		if (n < 5 || (n < lim && rn(12) == 0)) { CASE("step %d: new variable %d", s, n); fresh_name(); DISTINCT(); continue; }
		int j = rn(n), op = rn(8);
		CASE("step %d: variable %d (of %d) %s, operation %d", s, j, n, gen[j] ? "generated" : nm[j], op);
		if (op < 4) {
			Obj x = any(), r = x;
			if (op == 0) r = primSet(vm, sym[j], x);
			if (op == 1) r = coraPrimSet(vm, sym[j], x);
			if (op == 2 && !gen[j]) globalSet(vm, bindSymbol(vm, sym[j]), x);
			else if (op == 3 && bound[j]) globalSet(vm, bind[j], x);
			else r = primSet(vm, sym[j], x);
			CHECK(r == x, "set returns another value");
			val[j] = x;
		}
		for (int i = 0; i < 6; i++) look(j, i);
		look(rn(n), rn(6));
		if (s % 2000 == 0) for (int i = 0; i < n; i++) look(i, rn(6));
	}
	for (int i = 0; i < n; i++) for (int k = 0; k < 6; k++) { CASE("variable %d at the end", i); look(i, k); }
	// functions registered from C are the values of their names, and listed as exports
	for (int i = 0; i < 40; i++) {
		char pkg[40], name[40], full[100], ex[100];
		sprintf(pkg, "drv/pkg%d", i % 5);
		sprintf(name, "function-%d", i);
		sprintf(full, "%s#%s", pkg, name);
		sprintf(ex, "%s#*ns-export*", pkg);
		CASE("register %s", full);
		coraRegisterAPI(vm, pkg, name, nop, 1);
		Obj f = symbolGet(vm, intern(full));
		CHECK(tag(f) == TAG_NATIVE && nativeFn(f) == nop && nativeRequired(f) == 1, "the registered function is not the value of its name");
		CHECK(vm_apply(f, 1, (Obj[]){sym[i]}) == sym[i], "calling the registered function");
		Obj l = symbolGet(vm, intern(ex));
		int k = 0;
		for (Obj p = l; iscons(p); p = cdr(p)) k++;
		CHECK(k == i / 5 + 1 && car(l) == intern(name), "exports of %s", pkg);
	}
	for (int i = 0; i < n; i++) { CASE("variable %d after the registrations", i); look(i, rn(5)); }
	if (sizeof(struct registerEntry)) {
		struct registerModule *m = calloc(1, sizeof *m + 4 * sizeof(struct registerEntry));
		for (int i = 0; i < 3; i++) m->entries[i] = (struct registerEntry){(char *[]){"ra", "rb", "rc"}[i], nop, i + 1};
		CASE("registerAPI of a module");
		registerAPI(vm, m, S("drv/module"));
		for (int i = 0; i < 3; i++) {
			char b[50];
			sprintf(b, "drv/module#%s", m->entries[i].name);
			Obj f = symbolGet(vm, intern(b));
			CHECK(tag(f) == TAG_NATIVE && nativeFn(f) == nop && nativeRequired(f) == i + 1, "%s is not the registered function", b);
		}
		Obj l = symbolGet(vm, intern("drv/module#*ns-export*"));
		CHECK(iscons(l) && car(l) == intern("rc") && car(cdr(l)) == intern("rb") && car(cdr(cdr(l))) == intern("ra"), "exports of the module");
	}
	CASE("no symbol");
	CHECK(STOPS(symbolGet(vm, makeNumber(3))), "symbolGet of a number");
	CHECK(STOPS(primSet(vm, makeString(vm->gc, "a", 1), Nil)), "primSet of a string");
	return drv_done("random histories of new variables (interned and generated), sets and gets through symbolGet/primSet, value, value-or, bindings kept from early on and the C interface, compared with an array of values; registered functions");
}
