// Drives hashmap.c's public interface through operation histories with symbolic keys.
#include <toycc.h>
#include <hashmap.h>
unsigned long __sym_var(const char *, int); void __sym_assume(int); void __sym_assert(int, const char *); long __sym_choose(const char *, int);
static const char *script[] = {
#include "scripts.inc"
};
enum { MAXK = 16, MAXF = 80 };
static char keys[MAXK][4]; static int len[MAXK];
static char fk[MAXF][4]; static char *fv[MAXF];
static char vals[256];
static const char *nm0[] = {"k0","k1","k2","k3","k4","k5","k6","k7","k8","k9","k10","k11"};
static const char *nm1[] = {"l0","l1","l2","l3","l4","l5","l6","l7","l8","l9","l10","l11"};
static void mk(int i, char cls) {
	unsigned c = __sym_var(nm0[i], 8) & 255;
	keys[i][0] = c; len[i] = 1;
	if (cls == 0) __sym_assume((c & 15) == 1 && c != 0);          // one home bucket while the capacity is 16
	else if (cls == 1) __sym_assume((c & 14) == 0 && c > 15);      // two adjacent home buckets
	else if (cls == 3) __sym_assume(c >= 'a' && c <= 'b');          // 1- and 2-byte keys, one a prefix of the other
	else if (cls == 4) { unsigned d = __sym_var(nm1[i], 8) & 255; keys[i][1] = d; len[i] = 2; __sym_assume(c >= 'a' && c <= 'b' && d != 0); }
	else { unsigned d = __sym_var(nm1[i], 8) & 255; keys[i][1] = d; len[i] = 2; __sym_assume(c >= 'a' && c <= 'p' && d >= '0' && d <= '1'); }
}
static int eq(int a, int b) { if (len[a] != len[b]) return 0; int r = keys[a][0] == keys[b][0]; if (len[a] == 2) r &= keys[a][1] == keys[b][1]; return r; }
int h_main(void) {
	struct HashMap *m = calloc(1, sizeof *m);
	const char *s = script[__sym_choose("S", sizeof script / sizeof *script)];
	int nk = 0, nf = 0, lo = 0, nv = 0, last = 0;
	static int op[MAXK]; static char *val[MAXK];
	for (; *s; s++) {
		if (*s == 'F') { fk[nf][0] = '#'; fk[nf][1] = 33 + nf; fv[nf] = &vals[nv++]; hashmap_put(m, fk[nf], fv[nf]); nf++; continue; }
		if (*s == 'G') { if (lo < nf) { hashmap_delete(m, fk[lo]); fv[lo] = 0; lo++; } continue; }
		if (*s == 'H') { last = nf - 1; while (last > 0 && !fv[last]) last--; hashmap_delete(m, fk[last]); fv[last] = 0; continue; }
		if (*s == 'O') { last = nf - 1; fv[last] = &vals[nv++]; hashmap_put(m, fk[last], fv[last]); continue; }
		const char *c = "pdqerxuvwy"; int k = 0; while (c[k] != *s) k++;
		mk(nk, k / 2);
		op[nk] = k % 2; val[nk] = k % 2 ? 0 : &vals[nv++];
		if (op[nk]) hashmap_delete2(m, keys[nk], len[nk]); else hashmap_put2(m, keys[nk], len[nk], val[nk]);
		nk++;
	}
	for (int i = 0; i < nf; i++) __sym_assert(hashmap_get(m, fk[i]) == (void *)fv[i], "a key stored and never deleted is found, a deleted one is not");
	// every key used in the history is looked up; the last operation on an equal key decides
	for (int i = 0; i < nk; i++) {
		char *want = val[i];
		for (int j = i + 1; j < nk; j++) if (eq(i, j)) want = val[j];
		__sym_assert(hashmap_get2(m, keys[i], len[i]) == (void *)want, "lookup returns the latest value stored under the key");
	}
	// the one-byte prefix of a two-byte key is a key of its own
	for (int i = 0; i < nk; i++) if (len[i] == 2) {
		char *want = 0;
		for (int j = 0; j < nk; j++) if (len[j] == 1 && keys[j][0] == keys[i][0]) want = val[j];
		__sym_assert(hashmap_get2(m, keys[i], 1) == (void *)want, "a prefix of a key is another key");
	}
	// a key not in the history
	if (nk) {
		int i = nk - 1; static char u[4]; u[0] = keys[0][0]; u[1] = '!'; u[2] = 0;
		if (len[i] <= 2) __sym_assert(hashmap_get2(m, u, 3) == NULL, "a key never stored is not found");
	}
	return 0;
}
