// the text the compiler emits for constants and names, read back as C reads it
#include "common.h"
#include "vm.h"
#include <ctype.h>
#undef assert
bool __wrap_gcTriggerCheck(GC *gc) { return false; }
void entry(Cora *co, int label, Obj *R);
static FILE *f;
static char *out;
static size_t outn;
#define EMIT(name, x) ({ f = open_memstream(&out, &outn); VMCALL("int#" name, makeCObj(f), x); fclose(f); out; })
static char *show(const unsigned char *b, int n) {
	static char o[400];
	char *q = o;
	for (int i = 0; i < n && q < o + 300; i++) q += b[i] > 32 && b[i] < 127 ? sprintf(q, "%c", b[i]) : sprintf(q, "<%d>", b[i]);
	*q = 0;
	return o;
}
// the bytes of a C string literal with this body, or -1
static int literal(const unsigned char *s, int n, unsigned char *to) {
	int k = 0;
	for (int i = 0; i < n; i++) {
		if (s[i] == '"' || s[i] == '\n' || s[i] == '\r' || s[i] == 0) return -1;
		if (s[i] != '\\') { to[k++] = s[i]; continue; }
		if (++i >= n) return -1;
		static const char from[] = "\"\\'?abfnrtv", val[] = "\"\\'?\a\b\f\n\r\t\v";
		const char *p = strchr(from, s[i]);
		if (s[i] && p) { to[k++] = val[p - from]; continue; }
		if (s[i] >= '0' && s[i] <= '7') {
			int v = 0;
			for (int j = 0; j < 3 && i < n && s[i] >= '0' && s[i] <= '7'; j++, i++) v = v * 8 + s[i] - '0';
			i--;
			if (v > 255) return -1;
			to[k++] = v;
			continue;
		}
		if (s[i] == 'x') {
			int v = 0, c = 0;
			for (i++; i < n && isxdigit(s[i]); i++, c++) v = v * 16 + (isdigit(s[i]) ? s[i] - '0' : tolower(s[i]) - 'a' + 10);
			i--;
			if (!c || v > 255) return -1;
			to[k++] = v;
			continue;
		}
		return -1;
	}
	return k;
}
static struct { char name[300], cname[1500]; } seen[4096];
int main(void) {
	drv_init();
	int steps = thorough ? 600000 : 60000;
	for (int i = 0; i < steps && time_left() && !n_fail; i++) {
		if (i % 4000 == 0) {
			vm_init();
			Obj R[3] = {Nil, Nil, makeString(vm->gc, "int", 3)};
			saveCont(vm, NULL, 0, vm->ctx.bp);
			entry(vm, 0, R);
		}
		unsigned char b[3001], back[20000];
		int kind = rn(3), n = rn(30) == 0 ? rn(3000) : rn(20), al = rn(4);
		for (int j = 0; j < n; j++) b[j] = al == 0 ? 1 + rn(255) : al == 1 ? "\"\\\n\t\rn0?/x'"[rn(11)] : al == 2 ? "ab\\\"%s%d"[rn(8)] : 32 + rn(95);
		b[n] = 0;
		if (kind == 0) {
			CASE("escape-str of \"%s\"", show(b, n));
			Obj o = makeString(vm->gc, (char *)b, n), r = VMCALL("int#escape-str", o);
			CHECK(isBytes(r), "not a string");
			int k = isBytes(r) ? literal((unsigned char *)bytesData(r), bytesLen(r), back) : -1;
			CHECK(k == n && !memcmp(back, b, n), "the literal \"%s\" denotes another text", isBytes(r) ? show((unsigned char *)bytesData(r), bytesLen(r)) : "");
			CHECK(bytesLen(o) == n && !memcmp(bytesData(o), b, n + 1), "the argument was changed");
			EMIT("generate-str", r);
			CHECK(outn == bytesLen(r) && !memcmp(out, bytesData(r), outn), "generate-str writes another text: %s", show((unsigned char *)out, outn));
			free(out);
		} else if (kind == 1) {
			if (n > 250) n = 250;
			if (n == 0) n = 1, b[0] = 'a';
			for (int j = 0; j < n; j++) if (b[j] <= 32 || strchr("()\"'`,;[]", b[j])) b[j] = "-+*/<>=?!#._0aZ"[rn(15)];
			b[n] = 0;
			CASE("generate-sym of %s", show(b, n));
			EMIT("generate-sym", intern((char *)b));
			CHECK(outn > 0 && !isdigit(out[0]), "the name %s is no identifier", out);
			for (int j = 0; j < outn; j++) if (!((out[j] >= 'a' && out[j] <= 'z') || (out[j] >= 'A' && out[j] <= 'Z') || (out[j] >= '0' && out[j] <= '9') || out[j] == '_')) { CHECK(0, "the name %s is no identifier", out); break; }
			if (!isdigit(b[0]) && b[0] != 'v' && outn < 1400) {
				unsigned h = 5381;
				for (int j = 0; j < outn; j++) h = h * 33 ^ out[j];
				h %= 4096;
				if (seen[h].cname[0] && !strcmp(seen[h].cname, out)) CHECK(!strcmp(seen[h].name, (char *)b), "the name %s stands for %s too", out, seen[h].name);
				strcpy(seen[h].cname, out);
				strcpy(seen[h].name, (char *)b);
			}
			free(out);
			for (int w = 0; w < 2; w++) {  // short names, so that equal C names meet
				char t[4] = {"abc-+_4"[rn(7)], "-+*_45.?\0"[rn(9)], "_45-\0"[rn(5)], 0};
				CASE("generate-sym of %s", t);
				EMIT("generate-sym", intern(t));
				unsigned h = 5381;
				for (int j = 0; j < outn; j++) h = h * 33 ^ out[j];
				h %= 4096;
				if (seen[h].cname[0] && !strcmp(seen[h].cname, out)) CHECK(!strcmp(seen[h].name, t), "the name %s stands for %s too", out, seen[h].name);
				strcpy(seen[h].cname, out);
				strcpy(seen[h].name, t);
				free(out);
			}
		} else {
			int64_t v = (int64_t)(rnd() >> (11 + rn(53))) * (rn(2) ? 1 : -1);
			CASE("generate-num of %ld", (long)v);
			EMIT("generate-num", makeNumber(v));
			char *e;
			CHECK(outn && strtoll(out, &e, 10) == v && !*e, "writes %s", out);
			free(out);
		}
		DISTINCT();
	}
	return drv_done("literals denote the bytes of the constant, names are identifiers, numbers denote the constant");
}
