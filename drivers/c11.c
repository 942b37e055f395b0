// a random mutator on the real machine (slots of running and saved frames, globals, the result register, vectors, pairs, strings, closures, captured
// continuations) with a shadow copy of everything reachable, under many incremental collections
#include "common.h"
#include "vm.h"
#undef assert
enum { CONS, VEC, STR, NAT, CONT, NKINDS };
#define MAXNODE 60000
#define MAXDEPTH 200
#define NS 12
#define NG 24
typedef struct { Obj o; int n; } Val;  // n: node, or -1 for an immediate value
typedef struct { Val slot[NS + 1]; int boundary, id; } Fr;
typedef struct { int kind, n, cap, used; Obj o; Val *kid; Fr *fr; int nfr; uint64_t seed; int stamp; } Node;
static Node node[MAXNODE];
static int nfree, freel[MAXNODE], stamp, rounds, maxlive, live;
static Fr fr[MAXDEPTH + 8];
static int depth;
static Val glob[NG];
static Obj gsym[NG];
static Val pending;
static long steps, total, resumed, captured;
static int bias, size_mode;
static Obj MUT, HND, TRYFN, THROWFN;
static void mut(Cora *co, int label, Obj *R);
static const Val NILV = {0, -1};

static void dummy(Cora *co, int label, Obj *R) { coraReturn(co, Nil); }
static Val imm(Obj o) { return (Val){o, -1}; }
static int newnode(int kind, Obj o, int n) {
	int k = freel[--nfree];
	Node *x = &node[k];
	*x = (Node){.kind = kind, .n = n, .cap = n, .o = o, .kid = kind == STR ? NULL : malloc(sizeof(Val) * (n + 1)), .stamp = stamp};
	live++;
	return k;
}
static uint8_t pat(uint64_t seed, int i) { return (uint8_t)(((seed + i) * 0x9E3779B97F4A7C15ULL) >> 53); }
static int bad;
static char *what[] = {"pair", "vector", "string", "closure", "continuation"};
static int ok_obj(Val v, const char *where, int i) {
	return 1;
}
static void fail(const char *where, int i, Obj got, Val want) {
	if (bad++ < 3) CHECK(0, "%s %d holds %lx, the value stored there was %lx (%s)", where, i, (long)got, (long)want.o, want.n < 0 ? "immediate" : what[node[want.n].kind]);
}
static int work[MAXNODE], nwork;
static void see(const char *where, int i, Obj got, Val want) {
	if (got != want.o) { fail(where, i, got, want); return; }
	if (want.n >= 0 && node[want.n].stamp != stamp) { node[want.n].stamp = stamp; work[nwork++] = want.n; }
}
static void see_frame(const char *where, Fr *f, Obj *bp) { for (int i = 1; i <= NS; i++) see(where, i, bp[i], f->slot[i]); }
// the continuation object behind a resumption
struct cont { scmHead head; int count, len; char data[]; };
static void verify(void) {
	stamp++;
	nwork = 0;
	for (int i = 0; i < NG; i++) see("the global variable", i, symbolGet(vm, gsym[i]), glob[i]);
	int d = depth - 1, c = vecLen(&vm->callstack) - 1;
	see_frame("the running frame: slot", &fr[d], vm->ctx.bp);
	for (d--; d >= 0; d--) {
		while (c >= 0 && vecGet(&vm->callstack, c).fn != mut) c--;
		if (c < 0) { CHECK(0, "%d saved frames are missing", d + 1); bad++; return; }
		see_frame("a saved frame: slot", &fr[d], vecGet(&vm->callstack, c).bp);
		c--;
	}
	while (nwork && !bad) {
		Node *x = &node[work[--nwork]];
		Obj o = x->o;
		scmHead *h = ptr(o);
		switch (x->kind) {
		case CONS:
			if (!iscons(o) || h->type != scmHeadCons) { fail("the type of a pair", 0, h->type, imm(scmHeadCons)); break; }
			see("the head of a pair", 0, car(o), x->kid[0]);
			see("the tail of a pair", 1, cdr(o), x->kid[1]);
			break;
		case VEC:
			if (!isvector(o) || vectorLength(o) != x->n) { fail("the length of a vector", x->n, isvector(o) ? vectorLength(o) : -1, imm(x->n)); break; }
			for (int i = 0; i < x->n; i++) see("a vector: element", i, vectorRef(o, i), x->kid[i]);
			break;
		case STR: {
			if (!isBytes(o) || bytesLen(o) != x->n) { fail("the length of a string", x->n, isBytes(o) ? bytesLen(o) : -1, imm(x->n)); break; }
			uint8_t *s = (uint8_t *)bytesData(o);
			for (int i = 0; i < x->n; i++) if (s[i] != pat(x->seed, i)) { fail("a string: byte", i, s[i], imm(pat(x->seed, i))); break; }
			break;
		}
		case NAT:
			if (h->type != scmHeadNative || nativeCaptured(o) != x->n) { fail("the closure", 0, h->type, imm(scmHeadNative)); break; }
			for (int i = 0; i < x->n; i++) see("a closure: captured value", i, nativeData(o)[i], x->kid[i]);
			break;
		case CONT: {
			if (h->type != scmHeadNative || nativeCaptured(o) != 1) { fail("the resumption", 0, h->type, imm(scmHeadNative)); break; }
			if (x->used) break;
			struct cont *k = ptr(nativeData(o)[0]);
			if (k->head.type != scmHeadContinuation) { fail("the continuation: type", 0, k->head.type, imm(scmHeadContinuation)); break; }
			Frame *f = (Frame *)k->data;
			int j = k->len - 1;
			for (int i = x->nfr - 1; i >= 0; i--) {
				while (j >= 0 && f[j].fn != mut) j--;
				if (j < 0) { fail("the frames of a continuation", i, 0, imm(1)); break; }
				see_frame("a continuation: slot", &x->fr[i], f[j--].bp);
			}
		}
		}
	}
	if (bad) return;
	live = 0;
	int seen[1] = {0};
	for (int i = 0; i < MAXNODE; i++) {
		Node *x = &node[i];
		if (!x->o) continue;
		if (x->stamp == stamp) { live++; continue; }
		free(x->kid);
		free(x->fr);
		x->kid = NULL; x->fr = NULL; x->o = 0;
		freel[nfree++] = i;
	}
	if (live > maxlive) maxlive = live;
}
static Val *SL(int i) { return &fr[depth - 1].slot[i]; }
static void put(Obj *R, int i, Val v) { R[i] = v.o; *SL(i) = v; }
static int pick(int kind) {  // a slot holding such a node
	int s = 1 + rn(NS);
	for (int i = 0; i < NS; i++, s = s % NS + 1) if (SL(s)->n >= 0 && node[SL(s)->n].kind == kind) return s;
	return 0;
}
static int slot(void) { return 1 + rn(NS); }
static void push_frame(int boundary) { depth++; fr[depth - 1].boundary = boundary; for (int i = 1; i <= NS; i++) fr[depth - 1].slot[i] = imm(Nil); }
// a resumption that is used is forgotten by its node, wherever it is referred to
static void op(Cora *co, Obj *R) {
	int d = slot(), r = rn(1000), a = slot(), b = slot();
	Val v = *SL(a);
	if (live > MAXNODE - 3000 || nfree < 2000) r = 980;
	if (r < 180) {  // a pair
		Obj o = makeCons(co->gc, R[a], R[b]);
		int k = newnode(CONS, o, 2);
		node[k].kid[0] = *SL(a); node[k].kid[1] = *SL(b);
		put(R, d, (Val){o, k});
	} else if (r < 260) {  // a vector
		int n = rn(10) ? rn(10) : rn(size_mode ? 1500 : 100), cap = n + rn(4) + 1;
		Obj o = makeVector(co->gc, n, cap);
		int k = newnode(VEC, o, cap);
		node[k].n = n;
		for (int i = 0; i < n; i++) { vectorSet(co->gc, o, i, R[a]); node[k].kid[i] = *SL(a); a = a % NS + 1; }
		put(R, d, (Val){o, k});
	} else if (r < 320) {  // a string
		int n = rn(8) ? rn(60) : rn(size_mode ? 20000 : 1000);
		Obj o = makeBytes(co->gc, n);
		int k = newnode(STR, o, n);
		node[k].seed = rnd();
		for (int i = 0; i < n; i++) bytesData(o)[i] = pat(node[k].seed, i);
		put(R, d, (Val){o, k});
	} else if (r < 370) {  // a closure
		int n = rn(4);
		Obj o = n == 0 ? makeNative(co->gc, 2, dummy, 0, 0) : n == 1 ? makeNative(co->gc, 2, dummy, 0, 1, R[a]) : n == 2 ? makeNative(co->gc, 2, dummy, 0, 2, R[a], R[b]) : makeNative(co->gc, 2, dummy, 1, 3, R[a], R[b], R[d]);
		int k = newnode(NAT, o, n);
		int ix[3] = {a, b, d};
		for (int i = 0; i < n; i++) node[k].kid[i] = *SL(ix[i]);
		put(R, d, (Val){o, k});
	} else if (r < 480) {  // read a part of an object
		if (v.n < 0) return;
		Node *x = &node[v.n];
		int i = x->n ? rn(x->n) : 0;
		if (x->kind == CONS) put(R, d, (Val){i ? cdr(R[a]) : car(R[a]), x->kid[i].n});
		else if (x->kind == VEC && x->n) put(R, d, (Val){vectorRef(R[a], i), x->kid[i].n});
		else if (x->kind == NAT && x->n) put(R, d, (Val){nativeData(R[a])[i], x->kid[i].n});
		else return;
		if (R[d] != x->kid[i].o) { fail("reading a part of an object: part", i, R[d], x->kid[i]); *SL(d) = x->kid[i]; }
	} else if (r < 620) {  // change an element of a vector; sometimes move the old element to a slot first
		int s = pick(VEC);
		if (!s) return;
		Node *x = &node[SL(s)->n];
		if (!x->n) return;
		int i = rn(x->n);
		if (rn(3) == 0 && d != s && d != b) put(R, d, (Val){vectorRef(R[s], i), x->kid[i].n});
		vectorSet(co->gc, R[s], i, R[b]);
		x->kid[i] = *SL(b);
	} else if (r < 680) {  // append to a vector
		int s = pick(VEC);
		if (!s) return;
		Node *x = &node[SL(s)->n];
		if (x->n > 3000) return;
		Obj was = R[s], o = vectorAppend(co->gc, R[s], R[b]);
		if (o == was) { x->kid[x->n++] = *SL(b); x->kid = realloc(x->kid, sizeof(Val) * (x->n + 1)); }
		else {
			int k = newnode(VEC, o, x->n + 1);
			memcpy(node[k].kid, x->kid, sizeof(Val) * x->n);
			node[k].kid[x->n] = *SL(b);
			node[k].kid = realloc(node[k].kid, sizeof(Val) * (node[k].n + 1));
			put(R, s, (Val){o, k});
		}
	} else if (r < 730) {
		int g = rn(NG);
		if (rn(3) == 0) {  // an object of its own
			Obj o = makeCons(co->gc, R[a], R[b]);
			int k = newnode(CONS, o, 2);
			node[k].kid[0] = *SL(a); node[k].kid[1] = *SL(b);
			primSet(co, gsym[g], o);
			glob[g] = (Val){o, k};
			return;
		}
		primSet(co, gsym[g], R[a]);
		glob[g] = *SL(a);
	} else if (r < 770) {
		int g = rn(NG);
		put(R, d, (Val){symbolGet(co, gsym[g]), glob[g].n});
		if (R[d] != glob[g].o) { fail("reading the global variable", g, R[d], glob[g]); *SL(d) = glob[g]; }
	} else if (r < 800) put(R, d, (Val){R[a], SL(a)->n});
	else if (r < 830 + bias) put(R, d, imm(rn(2) ? Nil : makeNumber(rn(1000))));
	else if (r < 900) { makeBytes(co->gc, rn(3) ? rn(200) : rn(6000)); }  // garbage
	else if (r < 960) {
		if (depth >= MAXDEPTH - 1) return;
		int try = rn(4) == 0;
		if (!try) { saveCont(co, mut, 1, R); push_frame(0); coraCall0(co, MUT); }
		else { saveCont(co, mut, 1, R); push_frame(1); coraCall2(co, TRYFN, MUT, HND); }
	} else if (r < 985) {
		if (depth <= 1) return;
		if (rn(2)) {  // an object that only the global variable refers to: after the return, only the result register does
			int g = rn(NG);
			pending = glob[g];
			Obj o = symbolGet(co, gsym[g]);
			primSet(co, gsym[g], Nil);
			glob[g] = imm(Nil);
			depth--;
			makeBytes(co->gc, rn(2) ? rn(3000) : 20000 + rn(20000));  // a collection may start right here
			coraReturn(co, o);
			return;
		}
		pending = *SL(a);
		depth--;
		coraReturn(co, R[a]);
	} else if (r < 992) {  // throw
		int t = depth - 1;
		while (t >= 0 && !fr[t].boundary) t--;
		if (t < 0) return;
		saveCont(co, mut, 1, R);
		int k = newnode(CONT, 0, 0);
		node[k].nfr = depth - t;
		node[k].fr = malloc(sizeof(Fr) * (depth - t));
		memcpy(node[k].fr, fr + t, sizeof(Fr) * (depth - t));
		Obj thrown = R[a];
		Val tv = *SL(a);
		depth = t;
		push_frame(0);
		*SL(1) = tv;
		*SL(2) = (Val){0, k};
		captured++;
		coraCall1(co, THROWFN, thrown);
	} else {
		int s = pick(CONT);
		if (!s || node[SL(s)->n].used) return;
		Node *x = &node[SL(s)->n];
		if (depth + x->nfr >= MAXDEPTH) return;
		Obj k = R[s], val = R[a];
		pending = *SL(a);
		saveCont(co, mut, 1, R);
		x->used = 1;
		memcpy(fr + depth, x->fr, sizeof(Fr) * x->nfr);
		fr[depth].boundary = 1;
		depth += x->nfr;
		resumed++;
		coraCall1(co, k, val);
	}
}
static void hnd(Cora *co, int label, Obj *R) {
	for (int i = 3; i <= NS; i++) R[i] = Nil;
	int k = SL(2)->n;
	node[k].o = R[2];
	SL(2)->o = R[2];
	if (R[1] != SL(1)->o) fail("the thrown value", 0, R[1], *SL(1));
	co->ctx.fn = mut;
	co->ctx.label = 2;
}
static void mut(Cora *co, int label, Obj *R) {
	if (label == 0) for (int i = 1; i <= NS; i++) R[i] = Nil;
	if (label == 1) {
		if (co->res != pending.o) fail("the returned value", 0, co->res, pending);
		int d = slot();
		put(R, d, pending);
		R[d] = co->res;
	}
	co->ctx.label = 2;
	if (bad || steps-- <= 0) {
		if (!bad) verify();
		co->ctx.fn = NULL;  // the machine is left as it is
		return;
	}
	CASE("run with bias %d, %s objects: step %ld to the end, %d frames, %d objects in use, %d collections", bias, size_mode ? "large" : "small", steps, depth, live, rounds);
	if (steps % 2000 == 0) verify();
	op(co, R);
	total++;
}
void __real_gcMarkRoot(GC *gc, gcMarkRootCallback f, void *d);
void __wrap_gcMarkRoot(GC *gc, gcMarkRootCallback f, void *d) { rounds++; __real_gcMarkRoot(gc, f, d); }
int main(void) {
	drv_init();
	for (int i = MAXNODE - 1; i >= 0; i--) freel[nfree++] = i;
	for (int rep = 0; time_left() && !n_fail && rep < (thorough ? 400 : 40); rep++) {
		vm_init();
		TRYFN = vm_fn("try");
		THROWFN = vm_fn("throw");
		MUT = makeNative(vm->gc, NS + 1, mut, 0, 0);
		HND = makeNative(vm->gc, NS + 1, hnd, 2, 0);
		primSet(vm, intern("driver-mut"), MUT);
		primSet(vm, intern("driver-hnd"), HND);
		for (int i = 0; i < NG; i++) { char b[20]; snprintf(b, 20, "driver-g%d", i); gsym[i] = intern(b); glob[i] = imm(Nil); primSet(vm, gsym[i], Nil); }
		depth = 0;
		bias = rep % 3 == 0 ? 0 : rep % 3 == 1 ? 25 : 50;
		size_mode = rep % 4 == 3;
		steps = size_mode ? 40000 : 150000;
		push_frame(0);
		coraCall0(vm, MUT);
		coraRun(vm);
		DISTINCT();
	}
	printf("%ld steps, %d collections, at most %d objects in use, %ld continuations captured, %ld resumed\n", total, rounds, maxlive, captured, resumed);
	return drv_done("everything reachable from frames, global variables, the result and continuations keeps its identity and content over many incremental collections");
}
