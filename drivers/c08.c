#include "common.h"
#undef assert
#include "str.c"

// every operation against mathematical byte strings; texts live in exact-size blocks so that any overrun faults under ASAN
static char *blk(const unsigned char *p, int n) { char *r = malloc(n ? n : 1); memcpy(r, p, n); if (!n) { free(r); r = malloc(1); } return r; }
static char *hex(const unsigned char *p, int n) {
	static char b[4][700]; static int k; char *o = b[k = (k + 1) & 3]; int i, w = 0;
	for (i = 0; i < n && w < 640; i++) w += sprintf(o + w, p[i] > 32 && p[i] < 127 && p[i] != '\\' ? "%c" : "\\x%02x", p[i]);
	o[w] = 0; return o;
}
static void same(strBuf b, const unsigned char *w, int n, const char *op) {
	str t = toStr(b);
	CHECK((int)t.len == n && strLen(t) == n, "%s: length %d, expected %d", op, (int)t.len, n);
	if ((int)t.len != n) return;
	CHECK(memcmp(t.str, w, n) == 0, "%s: the bytes differ", op);
	CHECK(toCStr(b)[n] == 0, "%s: not terminated", op);
	CHECK(toCStr(b) == t.str, "%s: toCStr", op);
	CHECK(b->cap > n, "%s: capacity %d", op, b->cap);
}
static void two(const unsigned char *a, int na, const unsigned char *b, int nb) {
	CASE("texts \"%s\" (%d bytes) and \"%s\" (%d bytes)", hex(a, na), na, hex(b, nb), nb);
	DISTINCT();
	char *p = blk(a, na), *q = blk(b, nb);
	str s = {.str = p, .len = na}, t = {.str = q, .len = nb};
	unsigned char *w = malloc(na + nb + 1);
	memcpy(w, a, na); memcpy(w + na, b, nb);
	strBuf x = strDup(s);
	same(x, a, na, "strDup");
	x = strCat(x, t);
	same(x, w, na + nb, "strCat");
	x = strCpy(x, t);
	same(x, b, nb, "strCpy");
	x = strCpy(x, s);
	same(x, a, na, "strCpy back");
	for (int i = 0; i < nb; i++) x = strAppend(x, b[i]);
	same(x, w, na + nb, "strAppend");
	int k = nb ? rn(nb + 1) : 0;
	x = strShrink(x, k);
	same(x, w, na + nb > k ? na + nb - k : 0, "strShrink");
	x = strShrink(x, na + nb + 3);
	same(x, w, 0, "strShrink to nothing");
	x = strCat(x, s);
	same(x, a, na, "strCat to the empty text");
	strFree(x);
	x = fromBlk(p, na);
	same(x, a, na, "fromBlk");
	strFree(x);
	x = strNew(1 + rn(4));
	same(x, a, 0, "strNew");
	for (int i = 0; i < na; i++) x = strAppend(x, a[i]);
	same(x, a, na, "strAppend from empty");
	x = strCat(x, t); x = strCat(x, t);
	CHECK((int)toStr(x).len == na + 2 * nb, "strCat twice: length");
	strFree(x);
	if (!memchr(a, 0, na)) {
		char *z = malloc(na + 1);
		memcpy(z, a, na); z[na] = 0;
		CHECK((int)cstr(z).len == na && cstr(z).str == z, "cstr");
		x = fromCStr(z);
		same(x, a, na, "fromCStr");
		strFree(x); free(z);
	}
	int c = strCmp(s, t), e = 0;
	for (int i = 0; i < na && i < nb && !e; i++) e = (unsigned char)a[i] > (unsigned char)b[i] ? 1 : (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 0;
	if (!e) e = na > nb ? 1 : na < nb ? -1 : 0;
	c = c > 0 ? 1 : c < 0 ? -1 : 0;
	CHECK(c == e, "strCmp gives %d, expected %d", c, e);
	int first = -1;
	for (int i = 0; i + nb <= na && first < 0; i++) if (!memcmp(a + i, b, nb)) first = i;
	CHECK(strStr(s, t) == first, "strStr gives %d, expected %d", strStr(s, t), first);
	if (nb) {
		int f = -1, l = -1;
		for (int i = 0; i < na; i++) if (a[i] == b[0]) { if (f < 0) f = i; l = i; }
		CHECK(strChr(s, b[0]) == f, "strChr gives %d, expected %d", strChr(s, b[0]), f);
		CHECK(strRchr(s, b[0]) == l, "strRchr gives %d, expected %d", strRchr(s, b[0]), l);
	}
	for (int r = 0; r < 4; r++) {
		int i = rn(2 * na + 5) - na - 2, j = rn(2 * na + 5) - na - 2;
		int i1 = i < 0 ? i + na : i, j1 = j < 0 ? j + na : j;
		int ok = i1 >= 0 && i1 <= na && j1 >= 0 && j1 <= na && i1 < j1;
		str u = strSub(s, i, j);
		if (ok) CHECK(u.str == p + i1 && (int)u.len == j1 - i1, "strSub %d %d gives length %d", i, j, (int)u.len);
		else CHECK(u.len == 0, "strSub %d %d gives length %d, expected the empty text", i, j, (int)u.len);
	}
	CHECK(!memcmp(p, a, na) && !memcmp(q, b, nb), "the arguments are changed");
	free(p); free(q); free(w);
}
int main(void) {
	drv_init();
	// all pairs of texts up to length 4 over {a, b}, then special bytes
	unsigned char A[8], B[8];
	for (int na = 0; na <= 5; na++) for (int x = 0; x < 1 << na; x++)
		for (int nb = 0; nb <= 3; nb++) for (int y = 0; y < 1 << nb; y++) {
			for (int i = 0; i < na; i++) A[i] = 'a' + ((x >> i) & 1);
			for (int i = 0; i < nb; i++) B[i] = 'a' + ((y >> i) & 1);
			two(A, na, B, nb);
			two(B, nb, A, na);
		}
	static unsigned char L[70000], R[70000];
	int lens[] = {0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 1300, 2047, 2048, 5000};
	for (int rep = 0; rep < (thorough ? 60 : 3); rep++)
		for (int i = 0; i < 27; i++) for (int j = 0; j < 27; j++) {
			int alpha = 1 + rn(4), m = rn(3);
			for (int k = 0; k < lens[i]; k++) L[k] = m == 0 ? rnd() : m == 1 ? 'a' + rn(alpha) : 127 + rn(3);
			for (int k = 0; k < lens[j]; k++) R[k] = m == 0 ? rnd() : m == 1 ? 'a' + rn(alpha) : 127 + rn(3);
			if (rn(3) == 0 && lens[j] <= lens[i]) memcpy(R, L + rn(lens[i] - lens[j] + 1), lens[j]);
			two(L, lens[i], R, lens[j]);
		}
	// every capacity met while a text grows byte by byte
	strBuf x = strNew(1);
	int top = thorough ? 60000 : 9000;
	for (int i = 0; i < top; i++) {
		L[i] = rnd();
		CASE("a text grown byte by byte to %d bytes", i + 1);
		x = strAppend(x, L[i]);
		CHECK((int)toStr(x).len == i + 1 && toCStr(x)[i] == (char)L[i] && toCStr(x)[i + 1] == 0, "strAppend");
		if (i % 97 == 0) same(x, L, i + 1, "strAppend");
	}
	same(x, L, top, "strAppend");
	strFree(x);
	return drv_done("all pairs of texts over {a,b} up to 5 and 3 bytes in both orders, pairs of 27 lengths up to 5000 bytes with random, repetitive and high bytes, slices at random positions inside and outside; distinct by pair of texts");
}
