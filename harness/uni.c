// unicode.c's functions on a symbolic code point
#include <toycc.h>
unsigned long __sym_var(const char *, int); void __sym_assume(int); void __sym_assert(int, const char *); long __sym_choose(const char *, int); void __sym_event(const char *, const char *);
// C11 annex D
static const unsigned D1[] = {0xA8,0xA8,0xAA,0xAA,0xAD,0xAD,0xAF,0xAF,0xB2,0xB5,0xB7,0xBA,0xBC,0xBE,0xC0,0xD6,0xD8,0xF6,0xF8,0xFF,0x100,0x167F,0x1681,0x180D,0x180F,0x1FFF,
 0x200B,0x200D,0x202A,0x202E,0x203F,0x2040,0x2054,0x2054,0x2060,0x206F,0x2070,0x218F,0x2460,0x24FF,0x2776,0x2793,0x2C00,0x2DFF,0x2E80,0x2FFF,0x3004,0x3007,0x3021,0x302F,0x3031,0x303F,
 0x3040,0xD7FF,0xF900,0xFD3D,0xFD40,0xFDCF,0xFDF0,0xFE44,0xFE47,0xFFFD,0x10000,0x1FFFD,0x20000,0x2FFFD,0x30000,0x3FFFD,0x40000,0x4FFFD,0x50000,0x5FFFD,0x60000,0x6FFFD,0x70000,0x7FFFD,
 0x80000,0x8FFFD,0x90000,0x9FFFD,0xA0000,0xAFFFD,0xB0000,0xBFFFD,0xC0000,0xCFFFD,0xD0000,0xDFFFD,0xE0000,0xEFFFD};
static const unsigned D2[] = {0x300,0x36F,0x1DC0,0x1DFF,0x20D0,0x20FF,0xFE20,0xFE2F};
static int inr(const unsigned *r, int k, unsigned c) { int x = 0; for (int i = 0; i < k; i += 2) x |= (c >= r[i]) & (c <= r[i + 1]); return x; }
static int d1(unsigned c) { return inr(D1, sizeof D1 / sizeof *D1, c); }
static int d2(unsigned c) { return inr(D2, sizeof D2 / sizeof *D2, c); }
int h_main(void) {
	unsigned c = __sym_var("c", 32);
	long w = __sym_choose("what", 4);
	if (w == 0 || w == 1) {
		__sym_assume(c <= 0x10FFFF && !(c >= 0xD800 && c < 0xE000));
		unsigned char *b = malloc(4); memset(b, 0x55, 4); int k = encode_utf8((char *)b, c);
		int want = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
		__sym_assert(k == want, "shortest encoding");
		unsigned e0 = want == 1 ? c : want == 2 ? 0xC0 | c >> 6 : want == 3 ? 0xE0 | c >> 12 : 0xF0 | c >> 18;
		__sym_assert(b[0] == e0, "lead byte");
		for (int i = 1; i < want; i++) __sym_assert(b[i] == (0x80 | (c >> 6 * (want - 1 - i) & 63)), "continuation byte");
		for (int i = want; i < 4; i++) __sym_assert(b[i] == 0x55, "no byte beyond the encoding is written");
		if (w == 1) {
			char *t = malloc(k); memcpy(t, b, k); const char *p = t; unsigned d = decode_utf8(&p, t);
			__sym_assert(d == c, "decode(encode(c)) == c"); __sym_assert(p == t + want, "decoding consumes exactly the bytes written");
		}
	} else {
		int a = ((c | 32) - 'a' <= 25 && c < 128) | (c == '_') | (c == '$'), dg = c - '0' <= 9;
		if (w == 2) { int want = a | (d1(c) & !d2(c)); __sym_assert(!!is_ident1(c) == want, "first identifier character"); }
		else { int want = a | dg | d1(c); __sym_assert(!!is_ident2(c) == want, "identifier character"); }
	}
	__sym_event("returned", "");
	return 0;
}
