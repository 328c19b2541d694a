// Differential harness: the real tokenize_file() against a reference lexer written
// from C's translation phases 1-3, both run on the same (symbolic) file.
#include <toycc.h>
void __sym_assert(int, const char *); void __sym_event(const char *, const char *);
enum { MAXB = 600, MAXT = 200 };
static unsigned char raw[MAXB]; static int nraw;
// after phase 2: characters with the physical line on which their logical line starts
static unsigned char s[MAXB]; static int ln[MAXB], n;
struct R { int b, e, line, bol, sp; char kind; } static rt[MAXT]; static int nt; // token text is s[b..e)
static int soft; // a literal's contents may still be diagnosed
static int err; // 0 well-formed, 1 must be diagnosed, 2 unspecified
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int ishex(int c) { return ((unsigned)(c - '0') <= 9) | ((unsigned)((c | 32) - 'a') <= 5); }
static int isd(int c) { return (unsigned)(c - '0') <= 9; }
static int isal(int c) { return ((unsigned)((c | 32) - 'a') <= 25) | (c == '_') | (c == '$'); }
// C11 annex D
static const unsigned D1[] = {0xA8,0xA8,0xAA,0xAA,0xAD,0xAD,0xAF,0xAF,0xB2,0xB5,0xB7,0xBA,0xBC,0xBE,0xC0,0xD6,0xD8,0xF6,0xF8,0xFF,0x100,0x167F,0x1681,0x180D,0x180F,0x1FFF,
 0x200B,0x200D,0x202A,0x202E,0x203F,0x2040,0x2054,0x2054,0x2060,0x206F,0x2070,0x218F,0x2460,0x24FF,0x2776,0x2793,0x2C00,0x2DFF,0x2E80,0x2FFF,0x3004,0x3007,0x3021,0x302F,0x3031,0x303F,
 0x3040,0xD7FF,0xF900,0xFD3D,0xFD40,0xFDCF,0xFDF0,0xFE44,0xFE47,0xFFFD,0x10000,0x1FFFD,0x20000,0x2FFFD,0x30000,0x3FFFD,0x40000,0x4FFFD,0x50000,0x5FFFD,0x60000,0x6FFFD,0x70000,0x7FFFD,
 0x80000,0x8FFFD,0x90000,0x9FFFD,0xA0000,0xAFFFD,0xB0000,0xBFFFD,0xC0000,0xCFFFD,0xD0000,0xDFFFD,0xE0000,0xEFFFD};
static const unsigned D2[] = {0x300,0x36F,0x1DC0,0x1DFF,0x20D0,0x20FF,0xFE20,0xFE2F};
static int inr(const unsigned *r, int k, unsigned c) { int x = 0; for (int i = 0; i < k; i += 2) x |= (c >= r[i]) & (c <= r[i + 1]); return x; }
static int d1(unsigned c) { return inr(D1, sizeof D1 / sizeof *D1, c); }
static int d2(unsigned c) { return inr(D2, sizeof D2 / sizeof *D2, c); }
// decode UTF-8 at s[i]; returns the length or 0 when malformed
static int u8len(int i, unsigned *out) {
	unsigned a = s[i];
	if (a < 0x80) { *out = a; return 1; }
	if (a < 0xC0) return 0;
	int k = a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4; unsigned c = a & (k == 2 ? 31 : k == 3 ? 15 : 7);
	for (int j = 1; j < k; j++) { if (i + j >= n || (s[i + j] & 0xC0) != 0x80) return 0; c = c << 6 | (s[i + j] & 63); }
	if (a >= 0xF8 || (k == 2 && c < 0x80) || (k == 3 && c < 0x800) || (k == 4 && (c < 0x10000 || c > 0x10FFFF)) || (c >= 0xD800 && c < 0xE000)) { err = 2; }
	*out = c; return k;
}
static int ident(int i, int first) { // length of one identifier character at i, 0 if none
	if (i >= n) return 0;
	if (s[i] < 0x80) return isal(s[i]) || (!first && isd(s[i])) ? 1 : 0;
	unsigned c; int k = u8len(i, &c);
	if (!k) { err = err ? err : 1; return 0; }
	if (d1(c) && !(first && d2(c))) return k;
	return 0;
}
static const char *P3[] = {"<<=", ">>=", "..."}, *P2[] = {"==","!=","<=",">=","->","+=","-=","*=","/=","++","--","%=","&=","|=","^=","&&","||","<<",">>","##"};
static int at(int i) { return i < n ? s[i] : 0; }
static int quoted(int i, int q) { // i at the opening quote; end index past the closing one, or -1
	for (i++; i < n && s[i] != '\n'; i++) { if (s[i] == '\\') { i++; if (i >= n || s[i] == '\n') return -1; continue; } if (s[i] == q) return i + 1; }
	return -1;
}
static void phase12(void) {
	int i = 0, phys = 1, cur = 1;
	if (nraw >= 3 && raw[0] == 0xEF && raw[1] == 0xBB && raw[2] == 0xBF) i = 3;
	if (nraw == 0 || (raw[nraw - 1] != '\n')) raw[nraw++] = '\n';
	while (i < nraw) {
		int c = raw[i++];
		if (c == '\r') { if (i < nraw && raw[i] == '\n') i++; c = '\n'; }
		if (c == '\\' && i < nraw && (raw[i] == '\n' || raw[i] == '\r')) { if (raw[i] == '\r' && i + 1 < nraw && raw[i + 1] == '\n') i++; i++; phys++; continue; }
		ln[n] = cur; s[n++] = c;
		if (c == '\n') { phys++; cur = phys; }
	}
}
static void put8(unsigned c, int line) {
	int k = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
	if (k == 1) { s[n] = c; ln[n++] = line; return; }
	s[n] = (0xF00 >> k & 0xFF) | c >> (6 * (k - 1)); ln[n++] = line;
	for (int j = k - 2; j >= 0; j--) { s[n] = 0x80 | (c >> (6 * j) & 63); ln[n++] = line; }
}
static void ucns(void) { // universal character names denote the character
	static unsigned char t[MAXB]; static int tl[MAXB]; int m = n; memcpy(t, s, n); memcpy(tl, ln, n * sizeof(int)); n = 0;
	for (int i = 0; i < m;) {
		if (t[i] == '\\' && i + 1 < m && (t[i + 1] == 'u' || t[i + 1] == 'U')) {
			int k = t[i + 1] == 'u' ? 4 : 8, ok = i + 2 + k <= m; unsigned c = 0;
			for (int j = 0; ok && j < k; j++) { ok = ishex(t[i + 2 + j]); if (ok) c = c << 4 | hexv(t[i + 2 + j]); }
			if (!ok) { err = 2; s[n] = t[i]; ln[n++] = tl[i]; i++; continue; }
			if ((c < 0xA0 && c != 0x24 && c != 0x40 && c != 0x60) || (c >= 0xD800 && c < 0xE000) || c > 0x10FFFF) { err = 2; return; }
			put8(c, tl[i]); i += 2 + k;
		} else if (t[i] == '\\' && i + 1 < m) { s[n] = t[i]; ln[n++] = tl[i]; i++; s[n] = t[i]; ln[n++] = tl[i]; i++; }
		else { s[n] = t[i]; ln[n++] = tl[i]; i++; }
	}
}
static void phase3(void) {
	int i = 0, bol = 1, sp = 0;
	while (i < n && err == 0) {
		int c = s[i], b = i, e = -1; char kind = 'p';
		if (c == '\n') { bol = 1; sp = 0; i++; continue; }
		if ((c == ' ') | ((unsigned)(c - 9) <= 4)) { sp = 1; i++; continue; }
		if (c == '/' && at(i + 1) == '/') { while (i < n && s[i] != '\n') i++; sp = 1; continue; }
		if (c == '/' && at(i + 1) == '*') { int j = i + 2; while (j + 1 < n && !(s[j] == '*' && s[j + 1] == '/')) j++; if (j + 1 >= n) { err = 1; return; } i = j + 2; sp = 1; continue; }
		if (isd(c) || (c == '.' && isd(at(i + 1)))) {
			e = i + 1; kind = 'n';
			for (;;) { int d = at(e), l = d | 32; if ((l == 'e' || l == 'p') && (at(e + 1) == '+' || at(e + 1) == '-')) e += 2; else if (isd(d) || d == '.' || (isal(d) && d != '$')) e++; else break; }
			if (at(e) == '$' || at(e) >= 0x80) { err = 2; return; }
		} else {
			int q = -1;
			if (c == '"' || c == '\'') q = i;
			else if ((c == 'L' || c == 'u' || c == 'U') && (at(i + 1) == '"' || at(i + 1) == '\'')) q = i + 1;
			else if (c == 'u' && at(i + 1) == '8' && at(i + 2) == '"') q = i + 2;
			else if (c == 'u' && at(i + 1) == '8' && at(i + 2) == '\'') { err = 2; return; } // C23
			if (q >= 0) {
				kind = s[q] == '"' ? 's' : 'c';
				e = quoted(q, s[q]);
				if (e < 0) { err = 1; return; }
				if (kind == 'c' && e == q + 2) { err = 2; return; }
				// the characters inside must decode (C10); escapes are judged there
				for (int j = q + 1; j < e - 1; j++) { if (s[j] >= 0x80) soft = 1; else if (s[j] == '\\') { j++; if ((s[j] | 32) == 'x' || (s[j] | 32) == 'u' || s[j] >= 0x80) soft = 1; } }
			} else {
				int k = ident(i, 1);
				if (err) return;
				if (k) { kind = 'i'; e = i; while ((k = ident(e, e == i)) > 0) e += k; if (err) return; }
				else {
					if (c >= 0x80 || c < 33 || c == 127) { err = 1; return; }
					e = i + 1;
					for (int j = 0; j < 20; j++) if (P2[j][0] == c && P2[j][1] == at(i + 1)) { e = i + 2; break; }
					for (int j = 0; j < 3; j++) if (P3[j][0] == c && P3[j][1] == at(i + 1) && P3[j][2] == at(i + 2)) { e = i + 3; break; }
					if ((c == '<' && (at(i + 1) == ':' || at(i + 1) == '%')) || (c == ':' && at(i + 1) == '>') || (c == '%' && (at(i + 1) == ':' || at(i + 1) == '>'))) { err = 2; return; } // digraphs
				}
			}
		}
		if (nt >= MAXT) return;
		rt[nt++] = (struct R){b, e, ln[b], bol, sp, kind};
		bol = sp = 0; i = e;
	}
}
int h_main(void) {
	FILE *f = fopen("/s/a.c", "r"); nraw = fread(raw, 1, MAXB - 2, f); fclose(f);
	phase12(); ucns(); if (!err) phase3();
	__sym_event("expect", err == 0 ? soft ? "soft" : "ok" : err == 1 ? "error" : "any");
	struct Token *t = tokenize_file("/s/a.c");
	__sym_event("returned", "");
	if (err == 2) return 0;
	__sym_assert(err == 0, "malformed source is diagnosed");
	for (int i = 0; i < nt; i++, t = t->next) {
		__sym_assert(t->kind != TK_EOF, "no token is lost");
		__sym_assert(t->len == rt[i].e - rt[i].b, "token boundaries (maximal munch)");
		int same = 1; for (int j = 0; j < t->len; j++) same &= (unsigned char)t->loc[j] == s[rt[i].b + j];
		__sym_assert(same, "token text");
		__sym_assert(t->at_bol == rt[i].bol, "first token of a line is marked");
		__sym_assert(t->has_space == rt[i].sp, "white space before a token is recorded");
		__sym_assert(t->line_no == rt[i].line, "token line number");
		int k = t->kind; char want = rt[i].kind;
		__sym_assert(want == 'i' ? k == TK_IDENT : want == 'n' ? k == TK_PP_NUM : want == 's' ? k == TK_STR : want == 'c' ? k == TK_NUM : k == TK_PUNCT, "token kind");
	}
	__sym_assert(t->kind == TK_EOF, "no extra token");
	return 0;
}
