#include "common.h"
#include "vm.h"
#undef assert
// the values of the driver are no roots: no collection here (C11 is about collections)
bool __wrap_gcTriggerCheck(GC *gc) { return false; }
static int calls;
// returns its arguments as a list; the rest of the frame is scribbled over
static void listing(Cora *co, int label, Obj *R) {
	calls++;
	int n = nativeRequired(R[0]);
	Obj l = Nil;
	for (int i = n; i > 0; i--) l = makeCons(co->gc, R[i], l);
	for (Obj *p = R + n + 1; p < co->ctx.sp; p++) *p = makeNumber(-1);
	coraReturn(co, l);
}
// stage k of a chain: takes its arguments, conses them onto the accumulator, returns the next stage or the list
static void stage(Cora *co, int label, Obj *R) {
	calls++;
	int n = nativeRequired(R[0]);
	Obj acc = nativeData(R[0])[0], more = nativeData(R[0])[1];
	for (int i = 1; i <= n; i++) acc = makeCons(co->gc, R[i], acc);
	for (Obj *p = R + n + 1; p < co->ctx.sp; p++) *p = makeNumber(-2);
	if (more == Nil) { coraReturn(co, acc); return; }
	int m = fixnum(car(more));
	coraReturn(co, makeNative(co->gc, m + 1 + rn(10), stage, m, 2, acc, cdr(more)));
}
// calls R[1] on its other arguments in a non-tail position, deep in the stack, then checks its own frame
static int width;
static void caller(Cora *co, int label, Obj *R) {
	if (label == 0) {
		int n = fixnum(R[2]);
		for (int i = 0; i < n; i++) R[10 + i] = vectorRef(R[3], i);
		for (int i = n; i < width; i++) R[10 + i] = makeNumber(i * 7);
		saveCont(co, caller, 1, R);
		switch (rn(2) ? n : -1) {
		case 0: coraCall0(co, R[1]); break;
		case 1: coraCall1(co, R[1], R[10]); break;
		case 2: coraCall2(co, R[1], R[10], R[11]); break;
		case 3: coraCall3(co, R[1], R[10], R[11], R[12]); break;
		case 4: coraCall4(co, R[1], R[10], R[11], R[12], R[13]); break;
		default: coraCall(co, R[1], n, R + 10);
		}
		return;
	}
	int n = fixnum(R[2]);
	for (int i = 0; i < width; i++)
		if (R[10 + i] != (i < n ? vectorRef(R[3], i) : makeNumber(i * 7))) { CHECK(0, "slot %d of the caller changed", 10 + i); break; }
	coraReturn(co, co->res);
}
static Obj apply(Obj f, int n, Obj *args) {
	Frame ctx = vm->ctx;
	Obj r;
	if (rn(2)) {
		Obj v = makeVector(vm->gc, n, n);
		for (int i = 0; i < n; i++) vectorSet(vm->gc, v, i, args[i]);
		width = n + rn(200 - n);
		Obj c = makeNative(vm->gc, 10 + width + 1, caller, 3, 0);
		r = vm_apply(c, 3, (Obj[]){f, makeNumber(n), v});
	} else {
		Obj *a = malloc((n + 1) * sizeof(Obj));
		memcpy(a, args, n * sizeof(Obj));
		r = vm_apply(f, n, a);
		free(a);
	}
	if (ctx.sp >= vm->stk.begin && ctx.sp < vm->stk.end) vm->ctx.sp = ctx.sp, vm->ctx.bp = ctx.bp;
	return r;
}
static void want_list(Obj l, int n, Obj *a, char *what) {
	Obj p = l;
	for (int i = 0; i < n; i++, p = cdr(p))
		if (!iscons(p) || car(p) != a[i]) { CHECK(0, "%s: argument %d", what, i); return; }
	CHECK(p == Nil, "%s: more arguments than given", what);
}
int main(void) {
	drv_init();
	vm_init();
	Obj a[256];
	for (int i = 0; i < 256; i++) a[i] = makeNumber(1000 + i);
	for (int n = 0; n <= 12; n++) {  // every way to split the arguments, for small n
		for (unsigned m = 0; m < (n ? 1u << (n - 1) : 1); m++) {
			CASE("%d parameters, arguments split by mask %x", n, m);
			Obj f = makeNative(vm->gc, n + 1 + rn(20), listing, n, 0), g = f;
			calls = 0;
			int from = 0;
			for (int i = 0; i < n; i++)
				if (i == n - 1 || (m >> i & 1)) {
					Obj old = g;
					CHECK(nativeRequired(g) == n - from, "the arity of a partial application");
					g = apply(g, i + 1 - from, a + from);
					if (i < n - 1) CHECK(calls == 0 && tag(g) == TAG_NATIVE, "the function ran before all its arguments were there");
					if (rn(3) == 0 && old != f) {  // partial applications can be used again
						Obj h = apply(old, i + 1 - from, a + from);
						if (i < n - 1) g = h; else want_list(h, n, a, "second use"), calls--;
					}
					from = i + 1;
				}
			if (n == 0) g = apply(f, 0, a);
			CHECK(calls == 1, "the function ran %d times", calls);
			want_list(g, n, a, "split");
			DISTINCT();
		}
	}
	for (int s = 0; s < (thorough ? 400000 : 40000); s++) {
		// a chain of stages, its arguments given in arbitrary portions
		int k = 1 + rn(5), tot = 0, ar[8];
		for (int i = 0; i < k; i++) tot += ar[i] = (i > 0 && 1) + rn(rn(5) ? 5 : 40);
		if (tot > 190) continue;
		Obj more = Nil;
		for (int i = k - 1; i > 0; i--) more = makeCons(vm->gc, makeNumber(ar[i]), more);
		char t[200];
		int l = 0;
		for (int i = 0; i < k; i++) l += sprintf(t + l, "%d ", ar[i]);
		l += sprintf(t + l, "| ");
		Obj g = makeNative(vm->gc, ar[0] + 1 + rn(10), stage, ar[0], 2, Nil, more);
		calls = 0;
		if (tot == 0 || (ar[0] == 0 && rn(2))) { CASE("stages %s, no argument", t); g = apply(g, 0, a); }
		for (int from = 0; from < tot;) {
			int n = rn(3) ? 1 + rn(tot - from) : tot - from;
			if (l < 150) l += sprintf(t + l, "%d ", n);
			CASE("stages %s", t);
			CHECK(tag(g) == TAG_NATIVE, "no function although arguments are missing");
			if (tag(g) != TAG_NATIVE) goto next;
			g = apply(g, n, a + from);
			from += n;
		}
		CHECK(calls == k, "%d stages ran of %d", calls, k);
		Obj r = Nil;
		for (Obj p = g; iscons(p); p = cdr(p)) r = makeCons(vm->gc, car(p), r);
		want_list(r, tot, a, "stages");
		DISTINCT();
next:;
	}
	for (int n = 0; n < 200; n++) {
		CASE("apply on a list of %d", n);
		Obj f = makeNative(vm->gc, n + 1 + rn(20), listing, n, 0);
		want_list(VMCALL("apply", f, mklist(n, a, Nil)), n, a, "apply");
		if (n > 1) {
			Obj p = apply(f, n / 2, a);
			want_list(VMCALL("apply", p, mklist(n - n / 2, a + n / 2, Nil)), n, a, "apply on a partial application");
		}
	}
	for (int n = 0; n < 20; n++) {
		CASE("no function, %d arguments", n);
		CHECK(STOPS(coraCall(vm, makeString(vm->gc, "x", 1), n, a)), "did not stop");
	}
	return drv_done("functions of 0 to 200 parameters with their arguments in every split up to 12 and random splits beyond, chains of functions over-applied, through coraCall, coraCall0 to 4 and apply");
}
