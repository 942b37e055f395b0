#include "common.h"
#include "vm.h"
#undef assert
// the values of the driver are no roots: no collection here (C11 is about collections)
bool __wrap_gcTriggerCheck(GC *gc) { return false; }
typedef struct { Obj *bp; int n, label; basicBlock fn; Obj *copy; } F;
static F fr[1 << 18];
static int d;
static void b0(Cora *co, int label, Obj *R) { }
static void b1(Cora *co, int label, Obj *R) { }
static void b2(Cora *co, int label, Obj *R) { }
static basicBlock bs[] = {b0, b1, b2};
static void fill(F *f) { for (int i = 0; i < f->n; i++) f->bp[i] = f->copy[i] = makeNumber((long)(rnd() >> 20)); }
static void same(F *f, char *when) {
	for (int i = 0; i < f->n; i++) if (f->bp[i] != f->copy[i]) { CHECK(0, "slot %d of the frame at depth %d changed (%s)", i, (int)(f - fr), when); return; }
}
static void fresh_frame(int n) {
	F *f = &fr[d];
	f->bp = stackAlloc(vm, n);
	f->n = n;
	f->copy = malloc(n * sizeof(Obj));
	CHECK(vm->ctx.bp == f->bp && vm->ctx.sp == f->bp + n, "the new frame is not the current one");
	CHECK(f->bp >= vm->stk.begin && vm->ctx.sp <= vm->stk.end, "the new frame leaves its segment");
	fill(f);
	d++;
}
static int segments(void) { return vecLen(&vm->stk.data); }
// machine level recursion through the trampoline
static int mode_left;
static long sum_seen, sum_want;
static void rec(Cora *co, int label, Obj *R) {
	if (label == 0) {
		int n = fixnum(R[1]);
		for (int i = 2; i < 2 + n % 9; i++) R[i] = makeNumber(n * 31 + i);
		if (n == 0) { coraReturn(co, makeNumber(0)); return; }
		saveCont(co, rec, 1, R);
		coraCall1(co, R[0], makeNumber(n - 1));
		return;
	}
	int n = fixnum(R[1]);
	for (int i = 2; i < 2 + n % 9; i++) if (R[i] != makeNumber(n * 31 + i)) { CHECK(0, "slot %d of the frame for %d changed during the call", i, n); break; }
	coraReturn(co, makeNumber(fixnum(co->res) + n));
}
static void loopf(Cora *co, int label, Obj *R) {
	int n = fixnum(R[1]);
	Obj acc = R[2];
	if (n == 0) { coraReturn(co, acc); return; }
	Obj f = R[0];
	co->ctx.sp = R;
	coraCall2(co, f, makeNumber(n - 1), makeNumber(fixnum(acc) + n));
}
int main(void) {
	drv_init();
	vm_init();
	for (int i = 0; i < segments(); i++) if (!vecGet(&vm->stk.data, i)) CHECK(0, "no segment");
	int steps = thorough ? 3000000 : 400000, lim = thorough ? 200000 : 30000, up = 1;
	Frame exit_frame = {.fn = NULL, .bp = vm->ctx.bp, .sp = vm->ctx.sp};
	vecAppend(&vm->callstack, exit_frame);
	int base_calls = vecLen(&vm->callstack), base_segs = segments();
	CASE("first frame");
	fresh_frame(3);
	for (int s = 0; s < steps; s++) {
		if (rn(3000) == 0) up = !up;
		if (d > lim) up = 0;
		int op = rn(10);
		int n = rn(4) ? 1 + rn(12) : rn(3) ? 1 + rn(120) : rn(3) ? 250 + rn(6) : 255;
		if (op < (up ? 6 : 3) && d < (1 << 18) - 2) {  // call
			F *f = &fr[d - 1];
			CASE("step %d: call with a frame of %d slots at depth %d, %ld slots left in the segment", s, n, d, (long)(vm->stk.end - vm->ctx.sp));
			f->fn = bs[rn(3)];
			f->label = rn(100);
			int cs = vecLen(&vm->callstack);
			saveCont(vm, f->fn, f->label, f->bp);
			CHECK(vecLen(&vm->callstack) == cs + 1, "saved frames");
			fresh_frame(n);
			DISTINCT();
		} else if (op < 8 && d > 1) {  // return
			CASE("step %d: return at depth %d from a frame of %d slots (%d segments)", s, d, fr[d - 1].n, segments());
			same(&fr[d - 1], "before its return");
			free(fr[d - 1].copy);
			d--;
			F *f = &fr[d - 1];
			Obj v = makeNumber(s);
			coraReturn(vm, v);
			CHECK(vm->res == v, "the result register");
			CHECK(vm->ctx.fn == f->fn && vm->ctx.label == f->label && vm->ctx.bp == f->bp && vm->ctx.sp == f->bp + f->n, "the machine is not in the caller's frame");
			CHECK(vm->ctx.sp >= vm->stk.begin && vm->ctx.sp <= vm->stk.end, "the caller's frame is not in the current segment");
			CHECK(vm->stk.begin == vecGet(&vm->stk.data, segments() - 1), "the current segment is not the last");
			same(f, "on return to it");
		} else if (op == 8) {  // tail call: the frame is replaced
			CASE("step %d: tail call from a frame of %d slots to one of %d slots at depth %d (%d segments)", s, fr[d - 1].n, n, d, segments());
			vm->ctx.sp = fr[d - 1].bp;
			free(fr[d - 1].copy);
			d--;
			fresh_frame(n);
		} else fill(&fr[d - 1]);
		if (s % 50000 == 0) for (int i = 0; i < d; i++) same(&fr[i], "now and then");
	}
	for (int i = 0; i < d; i++) same(&fr[i], "at the end");
	while (d > 1) {
		CASE("return at the end from depth %d", d);
		free(fr[d - 1].copy);
		d--;
		coraReturn(vm, True);
		CHECK(vm->ctx.bp == fr[d - 1].bp && vm->ctx.sp == fr[d - 1].bp + fr[d - 1].n && vm->ctx.label == fr[d - 1].label, "the machine is not in the caller's frame");
		same(&fr[d - 1], "on return to it");
	}
	CASE("return from the first frame");
	coraReturn(vm, True);
	CHECK(vm->ctx.fn == NULL && vm->ctx.sp == exit_frame.sp && segments() == base_segs && vecLen(&vm->callstack) == base_calls - 1, "the machine is not back where it started (%d segments, %d before)", segments(), base_segs);
	CASE("a frame that fits in no segment");
	CHECK(STOPS(stackAlloc(vm, 256)), "a frame of 256 slots");
	CHECK(STOPS(stackAlloc(vm, 0)), "a frame of 0 slots");
	int depths[] = {0, 1, 2, 10, 100, 1000, 20000, 100000};
	for (int i = 0; i < 8; i++)
		for (int w = 2 + 9; w < 256; w += i < 6 ? 7 : 61) {
			CASE("recursion of depth %d with frames of %d slots", depths[i], w);
			int segs = segments();
			Obj f = makeNative(vm->gc, w, rec, 1, 0);
			Obj r = vm_apply(f, 1, (Obj[]){makeNumber(depths[i])});
			CHECK(r == makeNumber((long)depths[i] * (depths[i] + 1) / 2), "result %ld", (long)fixnum(r));
			// the frame of a call from C stays where it is when the call is over
			CHECK(segments() <= segs + 1, "%d segments are left, %d before", segments(), segs);
		}
	for (int w = 3; w < 256; w += 4) {
		CASE("loop by tail calls with frames of %d slots", w);
		int segs = segments();
		Obj f = makeNative(vm->gc, w, loopf, 2, 0);
		Obj r = vm_apply(f, 2, (Obj[]){makeNumber(3000), makeNumber(0)});
		CHECK(r == makeNumber(3000L * 3001 / 2), "result");
		// the frame of a call from C stays where it is when the call is over
		CHECK(segments() <= segs + 1, "%d segments are left, %d before", segments(), segs);
	}
	return drv_done("random calls, returns and tail calls with frames of 1 to 255 slots, all slots filled and compared on return; recursion and loops through the trampoline at all frame sizes");
}
