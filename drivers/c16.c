// texts written together with the datum they denote, read by the reader; data printed and read back
#include "common.h"
#include "vm.h"
#include <sys/wait.h>
#undef assert
bool __wrap_gcTriggerCheck(GC *gc) { return false; }
static char txt[400000];
static int n;
static void add(const char *s) { int l = strlen(s); memcpy(txt + n, s, l + 1); n += l; }
static void ch(int c) { txt[n++] = c; txt[n] = 0; }
static void ws(int must) {
	int k = must + (rn(3) ? 0 : rn(4));
	while (k--) switch (rn(7)) {
		case 0: ch('\n'); break;
		case 1: ch('\t'); break;
		case 2: ch(';'); for (int i = rn(12); i > 0; i--) ch("abc ()\"';[0"[rn(11)]); ch('\n'); break;
		case 3: ch("\r\f\v"[rn(3)]); break;
		default: ch(' ');
	}
}
static int atom(int c) { return !(c == 0 || c == '(' || c == ')' || c == '"' || c == '\'' || c == '`' || c == ',' || c == ';' || c == '[' || c == ']' || c == ' ' || (c >= 9 && c <= 13)); }
static char *symtxt(int any) {
	static char b[1100];
	for (;;) {
		int l = 1 + (rn(50) ? rn(9) : rn(30) ? rn(60) : 900 + rn(99)), k = rn(4);
		for (int i = 0; i < l; i++) b[i] = k == 0 ? 33 + rn(94) : k == 1 ? "abc-+*"[rn(6)] : k == 2 ? "tr-1"[rn(4)] : 128 + rn(127);
		b[l] = 0;
		int ok = !(b[0] >= '0' && b[0] <= '9') && strcmp(b, "true") && strcmp(b, "false") && !(any && b[0] == '.'), digits = l > 1 && b[0] == '-';
		for (int i = 0; i < l; i++) if (!atom((unsigned char)b[i])) ok = 0;
		for (int i = 1; i < l; i++) if (b[i] < '0' || b[i] > '9') digits = 0;
		if (ok && !digits) return b;
	}
}
static int64_t num(void) { return (int64_t)(rnd() >> (11 + rn(53))) * (rn(2) ? 1 : -1); }
// writes a datum and returns it; inlist: right after something that needs no separator
static Obj gen(int depth, int inmacro) {
	if (n && atom((unsigned char)txt[n - 1])) ws(1);
	else ws(0);
	int k = rn(depth > 0 ? 14 : 7);
	char b[64];
	switch (k) {
	case 0: case 1: {
		int64_t v = num();
		if (rn(3) == 0) v %= 100;
		sprintf(b, rn(20) || v < 0 ? "%ld" : "00%ld", (long)v);
		add(b);
		return makeNumber(v);
	}
	case 2: { int t = rn(2); add(t ? "true" : "false"); return t ? True : False; }
	case 3: add("("); ws(0); add(")"); return Nil;
	case 4: case 5: { char *s = symtxt(inmacro); add(s); return intern(s); }
	case 6: {
		char s[1000];
		int l = rn(60) ? rn(12) : 980 + rn(20);
		ch('"');
		for (int i = 0; i < l; i++) {
			int c = rn(4) ? 32 + rn(95) : rn(2) ? 1 + rn(255) : "\n\\\"();"[rn(6)];
			s[i] = c;
			if (c == '"' || c == '\\') ch('\\'), ch(c);
			else if (c == '\n' && rn(2)) ch('\\'), ch('n');
			else if (c != 'n' && rn(20) == 0) ch('\\'), ch(c);
			else ch(c);
		}
		ch('"');
		return makeString(vm->gc, s, l);
	}
	case 7: { ch('\''); Obj o = gen(depth - 1, 0); return makeCons(vm->gc, intern("quote"), makeCons(vm->gc, o, Nil)); }
	case 8: { ch('`'); Obj o = gen(depth - 1, 0); return makeCons(vm->gc, intern("backquote"), makeCons(vm->gc, o, Nil)); }
	case 9: { ch(','); Obj o = gen(depth - 1, 0); return makeCons(vm->gc, intern("unquote"), makeCons(vm->gc, o, Nil)); }
	case 10: {
		ch('[');
		Obj v[40];
		int l = rn(5), rest = l > 1 && rn(3) == 0;
		for (int i = 0; i < l; i++) {
			if (rest && i == l - 1) { if (atom((unsigned char)txt[n - 1])) ws(1); ch('.'); ws(1); }
			v[i] = gen(depth - 1, 1);
		}
		ws(0);
		ch(']');
		return makeCons(vm->gc, intern(rest ? "list-rest" : "list"), mklist(l, v, Nil));
	}
	default: {
		Obj v[64];
		int l = rn(20) ? rn(6) : rn(60);
		ch('(');
		for (int i = 0; i < l; i++) v[i] = gen(depth - 1, 0);
		ws(0);
		ch(')');
		return mklist(l, v, Nil);
	}
	}
}
static Obj datum(int depth) {
	int k = rn(depth > 0 ? 8 : 5);
	if (k == 0) return makeNumber(num());
	if (k == 1) return makeNumber(rn(200) - 100);
	if (k == 2) return rn(2) ? True : False;
	if (k == 3) return Nil;
	if (k == 4) { char *s; do s = symtxt(0); while (strlen(s) > 900); return intern(s); }
	Obj v[40];
	int l = rn(20) ? rn(6) : rn(40);
	for (int i = 0; i < l; i++) v[i] = datum(depth - 1);
	return mklist(l, v, Nil);
}
static int same(Obj a, Obj b) {
	if (iscons(a) && iscons(b)) { while (iscons(a) && iscons(b)) { if (!same(car(a), car(b))) return 0; a = cdr(a); b = cdr(b); } return same(a, b); }
	if (isBytes(a) && isBytes(b)) return bytesLen(a) == bytesLen(b) && !memcmp(bytesData(a), bytesData(b), bytesLen(a));
	return a == b;
}
static char *printed(Obj o) { static char *p; static size_t l; if (p) free(p); p = NULL; FILE *f = open_memstream(&p, &l); printObj(f, o); fclose(f); return p; }
// texts that need not denote anything: the reader ends, or stops the program in order, and never writes outside its buffers
static int odd(char *s, int l) {
	fflush(stdout);
	int p = fork();
	if (p == 0) {
		freopen("/dev/null", "w", stderr);
		FILE *f = fmemopen(s, l, "r");
		setvbuf(f, NULL, _IOFBF, 64);
		alarm(10);
		for (int i = 0; i < 200; i++) { int e = 0; sexpRead(vm->gc, f, &e); if (e) break; }
		_exit(0);
	}
	int st;
	waitpid(p, &st, 0);
	return WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1);
}
int main(void) {
	drv_init();
	int steps = thorough ? 400000 : 40000;
	for (int i = 0; i < steps && time_left() && !n_fail; i++) {
		if (i % 4000 == 0) vm_init();
		if (i % 3) {
			n = 0;
			txt[0] = 0;
			int m = 1 + rn(3), e = 0;
			Obj want[3];
			for (int j = 0; j < m; j++) want[j] = gen(rn(4), 0);
			ws(0);
			if (n > 390000) continue;
			CASE("the text: %.700s", txt);
			FILE *f = fmemopen(txt, n, "r");
			for (int j = 0; j < m; j++) {
				Obj o = sexpRead(vm->gc, f, &e);
				CHECK(!e, "datum %d: reading fails", j);
				CHECK(same(o, want[j]), "datum %d is read as another one: %.200s", j, printed(o));
				if (n_fail) break;
			}
			if (!n_fail) {
				sexpRead(vm->gc, f, &e);
				CHECK(e, "the end of the text is not noticed");
			}
			fclose(f);
		} else {
			Obj d = datum(rn(5));
			char *p = printed(d);
			CASE("printed datum: %.700s", p);
			int e = 0;
			FILE *f = fmemopen(p, strlen(p), "r");
			Obj o = sexpRead(vm->gc, f, &e);
			fclose(f);
			CHECK(!e && same(o, d), "the printed datum is read as another one: %.200s", printed(o));
		}
		if (i % 200 == 0) {
			int l = 1 + rn(3) * rn(2000) + rn(40), k = rn(5);
			for (int j = 0; j < l; j++) txt[j] = k == 0 ? 1 + rn(255) : k == 1 ? "()[]'`,;\". a1-\n"[rn(15)] : k == 2 ? 'x' : k == 3 ? (j ? 'a' : '"') : (j ? '0' + rn(10) : '-');
			txt[l] = 0;
			CASE("arbitrary text (%d bytes): %.700s", l, txt);
			CHECK(odd(txt, l), "the reader crashes or does not end");
		}
		DISTINCT();
	}
	return drv_done("texts denote the data their syntax describes, printed data reads back equal, and no text makes the reader crash");
}
