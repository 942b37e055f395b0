#include "common.h"
#include "vm.h"
#undef assert
// programs of numbers, sums, throw, try, resume, evaluated by the machine and by a reference evaluator with explicit continuations
enum { NUM, ADD, THROW, TRY, VAR, RESUME, LOG, ALLOC, CALL, NKINDS };
typedef struct N { int k, n; struct N *a, *b; } N;
static N pool[4000];
static int np;
static N *node(int k, int n, N *a, N *b) { N *x = &pool[np++]; *x = (N){k, n, a, b}; return x; }
// inh: number of enclosing handlers whose resumption is unused
static N *gen(int d, int env, int *res) {
	int k = rn(NKINDS);
	if (d <= 0 || np > 3000) k = rn(2) ? NUM : VAR;
	if (k == VAR && env == 0) k = NUM;
	if (k == RESUME && !*res) k = rn(2) ? ADD : TRY;
	if (k == TRY && rn(3) == 0) k = THROW;
	switch (k) {
	case NUM: return node(NUM, rn(1000), 0, 0);
	case VAR: return node(VAR, 1 + rn(env > 3 ? 3 : env), 0, 0);
	case ADD: { N *a = gen(d - 1, env, res); return node(ADD, 0, a, gen(d - 1, env, res)); }
	case TRY: { int no = 0, one = rn(4) > 0; N *a = gen(d - 1, env, &no); return node(TRY, 1 + rn(60), a, gen(d - 1, env + 1, &one)); }
	case RESUME: { *res = 0; int no = 0; return node(RESUME, 0, gen(d - 1, env, &no), 0); }
	default: return node(k, k == ALLOC ? 1 + rn(3000) : k == CALL ? rn(230) : rn(100), gen(d - 1, env, res), 0);
	}
}
static int show(char *t, int l, N *x) {
	static char *nm[] = {"num", "add", "throw", "try", "var", "resume", "log", "alloc", "call"};
	if (l > 3000) return l;
	l += sprintf(t + l, "(%s", nm[x->k]);
	if (x->k != ADD && x->k != THROW && x->k != RESUME) l += sprintf(t + l, " %d", x->n);
	if (x->a) l = show(t, l + sprintf(t + l, " "), x->a);
	if (x->b) l = show(t, l + sprintf(t + l, " "), x->b);
	return l + sprintf(t + l, ")");
}
static Obj encode(N *x) {
	Obj a = x->a ? encode(x->a) : Nil, b = x->b ? encode(x->b) : Nil;
	return makeCons(vm->gc, makeNumber(x->k), makeCons(vm->gc, makeNumber(x->n), makeCons(vm->gc, a, makeCons(vm->gc, b, Nil))));
}
// reference
typedef struct K { int t; N *x; struct E *env; long v; struct K *up; } K;
typedef struct E { long v; K *k; int used; struct E *up; } E;
enum { K_ADD1, K_ADD2, K_THROW, K_TRY, K_RESUME, K_LOG, K_ID, K_END };
static char *arena, *arena0;
static void *get(size_t n) { void *p = arena; arena += (n + 15) & ~15; if (arena > arena0 + (1 << 26)) abort(); return p; }
static K *push(int t, N *x, E *e, long v, K *up) { K *k = get(sizeof(K)); *k = (K){t, x, e, v, up}; return k; }
static long logs[2][20000];
static int nlog[2];
static K *onto(K *seg, K *base) {  // the frames of seg (up to its end, a null) on top of base
	if (!seg) return base;
	return push(seg->t, seg->x, seg->env, seg->v, onto(seg->up, base));
}
static int fuel;
static long ref(N *x, int *st) {
	K *k = push(K_END, 0, 0, 0, 0);
	E *env = 0;
	long v;
	for (;;) {
		if (--fuel < 0) { *st = 2; return 0; }
		switch (x->k) {
		case NUM: v = x->n; break;
		case VAR: { E *e = env; for (int i = 1; i < x->n; i++) e = e->up; v = e->v; break; }
		case ADD: k = push(K_ADD1, x, env, 0, k); x = x->a; continue;
		case THROW: k = push(K_THROW, x, env, 0, k); x = x->a; continue;
		case TRY: k = push(K_TRY, x, env, 0, k); x = x->a; continue;
		case RESUME: k = push(K_RESUME, x, env, 0, k); x = x->a; continue;
		case LOG: k = push(K_LOG, x, env, 0, k); x = x->a; continue;
		default: k = push(K_ID, x, env, x->n, k); x = x->a; continue;
		}
		for (;;) {  // return v to k
			if (--fuel < 0) { *st = 2; return 0; }
			K *f = k;
			k = k->up;
			if (f->t == K_ADD1) { k = push(K_ADD2, f->x, f->env, v, k); x = f->x->b; env = f->env; break; }
			if (f->t == K_ADD2) v = (v + f->v) & 0xffffff;
			else if (f->t == K_LOG) { if (nlog[0] < 20000) logs[0][nlog[0]++] = v + f->x->n; }
			else if (f->t == K_ID) v = (v + f->v) & 0xffffff;
			else if (f->t == K_TRY) ;
			else if (f->t == K_END) { *st = 0; return v; }
			else if (f->t == K_THROW) {
				K *p = k;
				while (p->t != K_TRY && p->t != K_END) p = p->up;
				if (p->t == K_END) { *st = 1; return v; }
				K *stop = p->up, *seg = 0, *list[5000];
				int n = 0;
				for (K *q = k; q != stop; q = q->up) list[n++] = q;
				for (int i = n - 1; i >= 0; i--) seg = push(list[i]->t, list[i]->x, list[i]->env, list[i]->v, seg);
				E *e = get(sizeof(E));
				*e = (E){v, seg, 0, p->env};
				env = e;
				x = p->x->b;
				k = stop;
				break;
			} else if (f->t == K_RESUME) {
				E *e = f->env;
				k = onto(e->k, k);
			}
		}
	}
}
// the machine: ev(node, env), env = list of (value . resumption)
static Obj FN, TRYFN, THROWFN;
static int dirty;
static Obj field(Obj x, int i) { while (i--) x = cdr(x); return car(x); }
static void handler(Cora *co, int label, Obj *R) {  // captures body, env
	Obj *d = nativeData(R[0]);
	Obj body = d[0], env = makeCons(co->gc, makeCons(co->gc, R[1], R[2]), d[1]);
	co->ctx.sp = R;
	coraCall2(co, vm_fn("driver-ev"), body, env);
}
static void thunk(Cora *co, int label, Obj *R) {
	Obj *d = nativeData(R[0]);
	Obj body = d[0], env = d[1];
	co->ctx.sp = R;
	coraCall2(co, vm_fn("driver-ev"), body, env);
}
static void ident(Cora *co, int label, Obj *R) {
	int n = fixnum(R[2]);
	if (label == 0) {
		for (int i = 5; i < n + 5; i++) R[i] = makeNumber(i + n);
		saveCont(co, ident, 1, R);
		coraCall2(co, R[4], R[1], R[3]);
		return;
	}
	for (int i = 5; i < n + 5; i++) if (R[i] != makeNumber(i + n)) { dirty++; break; }
	coraReturn(co, makeNumber((fixnum(co->res) + n) & 0xffffff));
}
static void ev(Cora *co, int label, Obj *R) {  // R: 0 fn, 1 node, 2 env, 3 and 4 temporaries
	Obj x = R[1], env = R[2];
	int k = fixnum(car(x));
	if (label == 0) {
		R[3] = R[4] = Nil;
		int n = fixnum(field(x, 1));
		switch (k) {
		case NUM: coraReturn(co, field(x, 1)); return;
		case VAR: for (int i = 1; i < n; i++) env = cdr(env); coraReturn(co, car(car(env))); return;
		case TRY: {
			Obj t = makeNative(co->gc, 1 + n, thunk, 0, 2, field(x, 2), env);
			Obj h = makeNative(co->gc, 3 + n, handler, 2, 2, field(x, 3), env);
			R[4] = makeNumber(777);
			if (n & 1) { saveCont(co, ev, 2, R); coraCall2(co, TRYFN, t, h); }
			else { co->ctx.sp = R; coraCall2(co, TRYFN, t, h); }
			return;
		}
		case CALL: {
			Obj f = makeNative(co->gc, 6 + n, ident, 4, 0);
			if (n & 1) { saveCont(co, ev, 3, R); coraCall4(co, f, field(x, 2), makeNumber(n), env, R[0]); }
			else { Obj a = field(x, 2), self = R[0]; co->ctx.sp = R; coraCall4(co, f, a, makeNumber(n), env, self); }
			return;
		}
		case ALLOC: R[3] = makeBytes(co->gc, n * 37); R[3] = makeVector(co->gc, n, n);
		}
		saveCont(co, ev, 1, R);
		coraCall2(co, R[0], field(x, 2), env);
		return;
	}
	if (label == 2 || label == 3) { if (R[1] != x || (label == 2 && R[4] != makeNumber(777))) dirty++; coraReturn(co, co->res); return; }
	Obj v = co->res;
	switch (k) {
	case ADD:
		if (label == 1) { R[3] = v; saveCont(co, ev, 4, R); coraCall2(co, R[0], field(x, 3), env); }
		else coraReturn(co, makeNumber((fixnum(R[3]) + fixnum(v)) & 0xffffff));
		return;
	case THROW:
		if (fixnum(field(x, 1)) & 1) { if (label == 1) { R[4] = makeNumber(7); saveCont(co, ev, 5, R); coraCall1(co, THROWFN, v); } else { if (R[4] != makeNumber(7)) dirty++; coraReturn(co, v); } }
		else { co->ctx.sp = R; coraCall1(co, THROWFN, v); }
		return;
	case RESUME: {
		Obj r = cdr(car(env));
		if (label == 6) { coraReturn(co, v); return; }
		if (rn(2)) { saveCont(co, ev, 6, R); coraCall1(co, r, v); }
		else { co->ctx.sp = R; coraCall1(co, r, v); }
		return;
	}
	case LOG: if (nlog[1] < 20000) logs[1][nlog[1]++] = fixnum(v) + fixnum(field(x, 1)); coraReturn(co, v); return;
	case ALLOC: coraReturn(co, makeNumber((fixnum(v) + fixnum(field(x, 1))) & 0xffffff)); return;
	}
}
static void top(Cora *co, int label, Obj *R) {  // evaluates in a frame of its own
	if (label == 0) { saveCont(co, top, 1, R); coraCall2(co, vm_fn("driver-ev"), R[1], Nil); return; }
	coraReturn(co, co->res);
}
static char text[4000];
int main(void) {
	drv_init();
	vm_init();
	arena0 = malloc(1 << 26 | 4096);
	TRYFN = vm_fn("try");
	THROWFN = vm_fn("throw");
	primSet(vm, intern("driver-ev"), makeNative(vm->gc, 5, ev, 2, 0));
	primSet(vm, intern("driver-top"), makeNative(vm->gc, 3, top, 1, 0));
	int cs = vecLen(&vm->callstack);
	for (int s = 0; s < (thorough ? 600000 : 60000) && time_left(); s++) {
		np = 0;
		arena = arena0;
		int no = 0;
		// a handler around everything: each throw has one
		N *x = node(TRY, 1, 0, 0);
		int one = 1;
		x->a = gen(2 + rn(9), 0, &no);
		x->b = gen(rn(4), 1, &one);
		if (rn(2)) x = node(ADD, 0, x, node(NUM, 5, 0, 0));
		int l = show(text, 0, x), st;
		CASE("%.*s", l, text);
		nlog[0] = nlog[1] = dirty = 0;
		fuel = 20000;
		long want = ref(x, &st);
		if (st) continue;  // a throw in the outermost handler, or too long
		Frame ctx = vm->ctx;
		int tries = vecLen(&vm->trystack);
		Obj got = vm_apply(vm_fn("driver-top"), 1, (Obj[]){encode(x)});
		CHECK(isfixnum(got) && fixnum(got) == want, "the value is %ld, should be %ld", isfixnum(got) ? (long)fixnum(got) : -1, want);
		CHECK(nlog[0] == nlog[1] && !memcmp(logs[0], logs[1], nlog[0] * sizeof(long)), "the effects differ");
		CHECK(dirty == 0, "slots of waiting frames changed");
		CHECK(vecLen(&vm->trystack) == tries, "the stack of tries has %d entries, %d before", vecLen(&vm->trystack), tries);
		CHECK(vecLen(&vm->callstack) == cs, "%d frames are left", vecLen(&vm->callstack) - cs);
		if (ctx.sp >= vm->stk.begin && ctx.sp < vm->stk.end) vm->ctx.sp = ctx.sp, vm->ctx.bp = ctx.bp;
		if (nlog[0] || l > 60) DISTINCT();
		if (n_fail > 20) break;
	}
	CASE("throw outside of any try");
	CHECK(STOPS(VMCALL("throw", makeNumber(1))), "did not stop");
	return drv_done("random programs of sums, calls, try, throw and resumption (tail and non-tail, frames up to 240 slots, with allocation and collections) against an evaluator with explicit continuations");
}
