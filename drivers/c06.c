#include "common.h"
#include "vm.h"
#undef assert
// the values of the driver are no roots: no collection here (C11 is about collections)
bool __wrap_gcTriggerCheck(GC *gc) { return false; }
static char *txt[60000];
static Obj sym[60000];
static int n;
static char *some(void) {
	static char b[5000];
	int k = rn(10), l;
	if (k < 3) { l = rn(4); }
	else if (k < 6) { l = rn(40); }
	else if (k < 8) { l = rn(300); }
	else if (k < 9 && n) {  // a neighbour of a known name: one byte changed, dropped or added
		char *s = txt[rn(n)];
		l = strlen(s);
		if (l > 4000) l = 4000;
		memcpy(b, s, l);
		b[l] = 0;
		int w = rn(4);
		if (w == 0 && l) b[rn(l)] = 1 + rn(255);
		else if (w == 1 && l) b[l - 1] = 0;
		else if (w == 2) { b[l] = 1 + rn(255); b[l + 1] = 0; }
		else if (l > 1) { int i = rn(l), j = rn(l); char t = b[i]; b[i] = b[j]; b[j] = t; }
		return b;
	} else { sprintf(b, "cora/some/package/with/a/long/path#name-%d-of-the-function-that-is-called", rn(5000)); return b; }
	for (int i = 0; i < l; i++) b[i] = k & 1 ? 1 + rn(255) : "abcxyz#-/?!*"[rn(12)];
	b[l] = 0;
	return b;
}
static uint64_t h(char *s) { uint64_t x = 5381; while (*s) x = x * 33 ^ (unsigned char)*s++; return x; }
#define HS (1 << 18)
static int tab[HS];
static int find(char *s) {
	uint64_t i = h(s) % HS;
	while (tab[i] && strcmp(txt[tab[i] - 1], s)) i = (i + 1) % HS;
	return tab[i] ? tab[i] - 1 : -1 - (int)i;
}
static int cmp(const void *a, const void *b) { Obj x = *(Obj *)a, y = *(Obj *)b; return x < y ? -1 : x > y; }
static void name_of(int j) {
	char d[6000];
	int l = strlen(txt[j]);
	CHECK(issymbol(sym[j]) && primIsSymbol(sym[j]) == True, "not a symbol");
	CHECK(symbolStr(sym[j], d, sizeof d) == 0 && !strcmp(d, txt[j]), "symbolStr gives another text: %.80s", d);
	memset(d, 7, sizeof d);
	CHECK(symbolStr(sym[j], d, l + 2) == 0 && !strcmp(d, txt[j]) && d[l + 1] == 7, "symbolStr into a tight buffer");
	Obj s = VMCALL("symbol->string", sym[j]);
	CHECK(isBytes(s) && bytesLen(s) == l && !memcmp(bytesData(s), txt[j], l + 1), "symbol->string gives another text: %.80s", bytesData(s));
	CHECK(VMCALL("intern", s) == sym[j], "interning the name of a symbol gives another symbol");
}
int main(void) {
	drv_init();
	vm_init();
	int steps = thorough ? 250000 : 40000;
	for (int i = 0; i < steps; i++) {
		char *s = rn(3) || !n ? some() : txt[rn(n)];
		CASE("step %d: intern of \"%.300s\" (%d symbols known)", i, s, n);
		char *tmp = strdup(s);
		Obj o = rn(2) ? intern(tmp) : VMCALL("intern", makeString(vm->gc, tmp, strlen(tmp)));
		int f = find(s);
		if (f >= 0) CHECK(o == sym[f], "another symbol for the same text");
		else if (n < 60000) {
			DISTINCT();
			txt[n] = strdup(s);
			sym[n] = o;
			tab[-1 - f] = ++n;
			name_of(n - 1);
		}
		memset(tmp, '?', strlen(tmp));  // the symbol must not depend on the memory of its argument
		free(tmp);
		if (i % 20 == 0) { int j = rn(n); CASE("step %d: name of symbol \"%.300s\"", i, txt[j]); name_of(j); }
	}
	CASE("%d names at the end", n);
	for (int j = 0; j < n; j++) { CASE("name %d at the end: \"%.300s\"", j, txt[j]); CHECK(intern(txt[j]) == sym[j], "another symbol for the same text"); }
	int g = 3000;
	Obj *all = malloc((n + g) * sizeof(Obj));
	memcpy(all, sym, n * sizeof(Obj));
	Obj names = Nil;
	for (int j = 0; j < g; j++) {
		CASE("generated symbol %d", j);
		all[n + j] = primGenSym(vm);
		CHECK(issymbol(all[n + j]) && primIsSymbol(all[n + j]) == True, "not a symbol");
		char d[100];
		symbolStr(all[n + j], d, sizeof d);
		Obj s = VMCALL("symbol->string", all[n + j]);
		CHECK(!strcmp(bytesData(s), d) && *d, "name of a generated symbol: %s", d);
		if (j && rn(2)) {
			char e[100];
			symbolStr(all[n + rn(j)], e, sizeof e);
			CHECK(strcmp(d, e), "two generated symbols have the name %s", d);
		}
	}
	qsort(all, n + g, sizeof(Obj), cmp);
	for (int j = 1; j < n + g; j++) CHECK(all[j] != all[j - 1], "one symbol for two names, or a generated symbol twice");
	return drv_done("random names (short, long, any byte but zero, neighbours of known names) through the reader's intern and the builtin; compared with a table of texts; names read back; generated symbols pairwise different");
}
