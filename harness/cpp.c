// Differential harness: "toycc -E" (the whole real compiler) against a reference
// preprocessor written from C11 6.10, both run on the same (symbolic) file.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void __sym_assert(int, const char *); void __sym_event(const char *, const char *);
int __sym_toycc(int, char **); long __sym_stdout(char **); // run main(); its standard output so far
enum { MAXB = 1200, TL = 40 };
typedef struct N { unsigned char t[TL]; int len, sp, bol, line, vm; char k; unsigned hs; struct N *nx; } N; // vm: from a macro; k 'm': placemarker
extern int __sym_noholes;
static int err; // 0 well-formed, 1 must be diagnosed, 2 unspecified/undefined
static int bad(int e) { if (!err) err = e; return 0; }
static int isd(int c) { return (unsigned)(c - '0') <= 9; }
static int isal(int c) { return ((unsigned)((c | 32) - 'a') <= 25) | (c == '_'); }
static const char *P3[] = {"<<=", ">>=", "..."}, *P2[] = {"==","!=","<=",">=","->","+=","-=","*=","/=","++","--","%=","&=","|=","^=","&&","||","<<",">>","##"};
static N *nn(void) { return calloc(1, sizeof(N)); }
static N *cp(N *a) { N *b = nn(); *b = *a; b->nx = 0; return b; }
static N *lex(const unsigned char *s, int n) {
	N head = {0}, *cur = &head; int i = 0, bol = 1, sp = 0, line = 1;
#define A(j) ((j) < n ? s[j] : 0)
	while (i < n) {
		int c = s[i], b = i, e; char k;
		if (c == '\n') { bol = 1; sp = 0; line++; i++; continue; }
		if (c == '\\' && A(i + 1) == '\n') { line++; i += 2; continue; }
		if ((c == ' ') | (c == '\t')) { sp = 1; i++; continue; }
		if (c == '/' && A(i + 1) == '*') { for (i += 2; i < n && !(s[i] == '*' && A(i + 1) == '/'); i++) if (s[i] == '\n') line++; if (i >= n) { bad(1); return 0; } i += 2; sp = 1; continue; }
		if (c == '/' && A(i + 1) == '/') { while (i < n && s[i] != '\n') i++; sp = 1; continue; }
		if (isd(c) | ((c == '.') & isd(A(i + 1)))) { k = 'n'; for (e = i + 1;; e++) { int d = A(e); if (((d | 32) == 'e' || (d | 32) == 'p') && (A(e + 1) == '+' || A(e + 1) == '-')) { e++; continue; } if (!(isd(d) | isal(d) | (d == '.'))) break; } }
		else {
			int q = c == '"' || c == '\'' ? i : (c == 'L' || c == 'u' || c == 'U') && (A(i + 1) == '"' || A(i + 1) == '\'') ? i + 1 : c == 'u' && A(i + 1) == '8' && A(i + 2) == '"' ? i + 2 : -1;
			if (q >= 0) { k = s[q] == '"' ? 's' : 'c'; for (e = q + 1; e < n && s[e] != '\n' && s[e] != s[q]; e++) if (s[e] == '\\') e++; if (e >= n || s[e] == '\n') { bad(1); return 0; } e++; }
			else if (isal(c)) { k = 'i'; for (e = i + 1; isal(A(e)) | isd(A(e)); e++); }
			else {
				k = 'p'; e = i + 1; if (c <= 32 || c > 126 || c == '@' || c == '`' || c == '\\') { bad(2); return 0; }
				for (int j = 0; j < 20; j++) if (P2[j][0] == c && P2[j][1] == A(i + 1)) { e = i + 2; break; }
				for (int j = 0; j < 3; j++) if (P3[j][0] == c && P3[j][1] == A(i + 1) && P3[j][2] == A(i + 2)) { e = i + 3; break; }
			}
		}
		if (e - b >= TL) { bad(2); return 0; }
		N *t = cur->nx = nn(); cur = t; memcpy(t->t, s + b, e - b); t->len = e - b; t->k = k; t->bol = bol; t->sp = sp; t->line = line; bol = sp = 0; i = e;
	}
	return head.nx;
}
static int same(N *a, N *b) { if (a->len != b->len) return 0; int x = 1; for (int i = 0; i < a->len; i++) x &= a->t[i] == b->t[i]; return x ? 1 : 0; }
static int is(N *a, const char *p) { if (!a || a->k == 's' || a->k == 'c' || a->k == 'm') return 0; int n = strlen(p); if (a->len != n) return 0; int x = 1; for (int i = 0; i < n; i++) x &= a->t[i] == (unsigned char)p[i]; return x ? 1 : 0; }
// ------------------------------------------------------------ macros
typedef struct M { N *name; int live, fn, np, va, idx; N *par[8]; N *body; int blt; } M;
static M mac[40]; static int nmac;
static M *find(N *t) { if (t->k != 'i') return 0; for (int i = 0; i < nmac; i++) if (mac[i].live && same(mac[i].name, t)) return &mac[i]; return 0; }
static int param(M *m, N *t) { if (t->k != 'i') return -1; for (int i = 0; i < m->np; i++) if (same(m->par[i], t)) return i; return -1; }
static N *expand(N *in, int top, int *open);
static N *copylist(N *l) { N h = {0}, *c = &h; for (; l; l = l->nx) c = c->nx = cp(l); return h.nx; }
static N *num(long v) { char b[24]; int n = 0; char r[24]; int k = 0; do r[k++] = '0' + v % 10; while (v /= 10); while (k) b[n++] = r[--k]; N *t = nn(); memcpy(t->t, b, n); t->len = n; t->k = 'n'; t->vm = 1; return t; }
static N *stringize(N *a) {
	N *t = nn(); int n = 0; t->k = 's'; t->vm = 1; t->t[n++] = '"';
	for (N *x = a; x; x = x->nx) {
		if (x != a && (x->sp || x->bol)) { if (n < TL - 4) t->t[n++] = ' '; }
		for (int i = 0; i < x->len; i++) { if (n >= TL - 4) { bad(2); return t; } int c = x->t[i]; if ((x->k == 's' || x->k == 'c') && (c == '"' || c == '\\')) t->t[n++] = '\\'; t->t[n++] = c; }
	}
	t->t[n++] = '"'; t->len = n; return t;
}
static N *paste(N *a, N *b) {
	if (a->k == 'm') { N *r = cp(b); r->sp = a->sp; r->bol = 0; return r; }
	if (b->k == 'm') return cp(a);
	unsigned char buf[2 * TL]; memcpy(buf, a->t, a->len); memcpy(buf + a->len, b->t, b->len); int n = a->len + b->len;
	if (n >= 2 && buf[0] == '/' && (buf[1] == '/' || buf[1] == '*')) { bad(1); return cp(a); }
	N *r = lex(buf, n);
	if (err || !r || r->nx) { err = 1; return cp(a); }
	r->bol = 0; r->sp = a->sp; r->hs = a->hs & b->hs; r->vm = 1; return r;
}
static N *pm(int sp) { N *t = nn(); t->k = 'm'; t->sp = sp; return t; }
static N *full(N **arg, N **earg, int *has, int p) { if (has[p] != 2) { int o = 0; earg[p] = expand(copylist(arg[p]), 0, &o); has[p] = 2; } return earg[p]; } // expanded only where it is used
static N *subst(M *m, N *body, N **arg, N **earg, int *has) {
	// 1: parameters and #, keeping ## as glue markers (k 'g')
	N h = {0}, *c = &h;
	for (N *t = body; t; t = t->nx) {
		int prevg = c->k == 'g', nextg = t->nx && is(t->nx, "##");
		if (m->fn && is(t, "#")) {
			int p = t->nx ? param(m, t->nx) : -1; if (p < 0) { bad(1); return 0; }
			c = c->nx = stringize(arg[p]); c->sp = t->sp; t = t->nx; continue;
		}
		if (is(t, "##")) {
			if (c == &h || !t->nx) { bad(1); return 0; }
			int p = m->fn ? param(m, t->nx) : -1;
			if (m->va && p == m->np - 1 && is(c, ",") && !c->vm) { // GNU comma deletion
				if (!arg[p]) { c->k = 'm'; c->len = 0; c = c->nx = pm(0); }
				else { N *e = copylist(full(arg, earg, has, p)); if (err) return 0; if (e) e->sp = t->nx->sp; c->nx = e; while (c->nx) c = c->nx; if (e == 0) c = c->nx = pm(0); }
				t = t->nx;
				if (t->nx && is(t->nx, "##")) { bad(2); return 0; }
				continue;
			}
			c = c->nx = cp(t); c->k = 'g'; continue;
		}
		if (m->va && m->fn && is(t, "__VA_OPT__") && t->nx && is(t->nx, "(")) {
			N ch = {0}, *cc = &ch; int lv = 0; N *x = t->nx->nx;
			for (;; x = x->nx) { if (!x) { bad(1); return 0; } if (is(x, ")") && lv-- == 0) break; if (is(x, "(")) lv++; cc = cc->nx = cp(x); }
			if (prevg || (x->nx && is(x->nx, "##"))) { bad(2); return 0; }
			if (full(arg, earg, has, m->np - 1) && !err) { N *e = subst(m, ch.nx, arg, earg, has); if (err) return 0; if (e) e->sp = t->sp; c->nx = e; while (c->nx) c = c->nx; }
			t = x; continue;
		}
		int p = m->fn ? param(m, t) : -1;
		if (p >= 0) {
			N *e = copylist(prevg || nextg ? arg[p] : full(arg, earg, has, p)); if (err) return 0;
			if (!e) { c = c->nx = pm(t->sp); continue; }
			e->sp = t->sp; e->bol = 0; c->nx = e; for (; c->nx; c = c->nx) { c->nx->vm = 1; }
			continue;
		}
		c = c->nx = cp(t);
	}
	// 2: glue, left to right
	N o = {0}, *d = &o, *dp = 0;
	for (N *t = h.nx; t; t = t->nx) {
		if (t->k == 'g') { if (d == &o || !t->nx) { bad(1); return 0; } N *r = paste(d, t->nx); if (err) return 0; dp->nx = r; d = r; t = t->nx; continue; }
		dp = d; d = d->nx = cp(t);
	}
	// 3: placemarkers vanish
	N q = {0}; d = &q;
	for (N *t = o.nx; t; t = t->nx) if (t->k != 'm') d = d->nx = cp(t);
	return q.nx;
}
static N *expand(N *in, int top, int *open) {
	N h = {0}, *c = &h;
	while (in && !err) {
		M *m = (in->k == 'i') ? find(in) : 0;
		if (m && (in->hs >> m->idx & 1)) m = 0;
		if (m && m->blt) { N *t = num(in->line); t->sp = in->sp; t->bol = in->bol; c = c->nx = t; in = in->nx; continue; }
		if (m && m->fn && !(in->nx && is(in->nx, "("))) m = 0;
		if (!m) { N *t = in; in = in->nx; c = c->nx = cp(t); continue; }
		N *arg[8] = {0}, *earg[8] = {0}; int has[8] = {0}; unsigned hs = in->hs; N *rest = in->nx; int line = in->line;
		if (m->fn) {
			N *x = in->nx->nx; int na = 0, lv = 0, any = 0; N ah = {0}, *ac = &ah;
			for (;; x = x->nx) {
				if (!x) { if (open) *open = 1; bad(1); return 0; }
				if (lv == 0 && (is(x, ")") || (is(x, ",") && !(m->va && na == m->np - 1)))) {
					int end = is(x, ")");
					if (na < 8) { arg[na] = ah.nx; has[na] = 1; } na++; ah.nx = 0; ac = &ah; any |= !end;
					if (end) break; continue;
				}
				if (is(x, "(")) lv++; else if (is(x, ")")) lv--;
				ac = ac->nx = cp(x); ac->nx = 0; any = 1;
			}
			if (m->np == 0 && na == 1 && !any) na = 0;
			if (m->va && na == m->np - 1) na = m->np;
			if (na != m->np) { bad(1); return 0; }
			hs &= x->hs; rest = x->nx;
		}
		N *b = subst(m, m->body, arg, earg, has); if (err) return 0;
		N bh = {0}, *bc = &bh; for (N *t = b; t; t = t->nx) { bc = bc->nx = cp(t); bc->hs |= hs | 1u << m->idx; bc->vm = 1; bc->bol = 0; bc->line = line; }
		if (bh.nx) { bh.nx->sp = in->sp; bh.nx->bol = in->bol; bc->nx = rest; in = bh.nx; }
		else { in = rest; }
	}
	return h.nx;
}
// ------------------------------------------------------------ #if expressions
static N *ep; static int ebad;
static long econd(int);
static long eprim(int ev) {
	if (!ep) { ebad = 1; return 0; }
	if (is(ep, "(")) { ep = ep->nx; long v = econd(ev); if (!ep || !is(ep, ")")) { ebad = 1; return 0; } ep = ep->nx; return v; }
	if (is(ep, "!")) { ep = ep->nx; return !eprim(ev); }
	if (is(ep, "-")) { ep = ep->nx; return -eprim(ev); }
	if (is(ep, "+")) { ep = ep->nx; return eprim(ev); }
	if (is(ep, "~")) { ep = ep->nx; return ~eprim(ev); }
	if (ep->k == 'i') { ep = ep->nx; return 0; }
	if (ep->k == 'n') { long v = 0; if (ep->len > 1 && ep->t[0] == '0') bad(2); for (int i = 0; i < ep->len; i++) { if (!isd(ep->t[i])) { bad(2); return 0; } v = v * 10 + ep->t[i] - '0'; } ep = ep->nx; return v; }
	if (ep->k == 's' || ep->k == 'c') bad(2);
	ebad = 1; return 0;
}
static const struct { const char *o; int p; } OP[] = {{"*",10},{"/",10},{"%",10},{"+",9},{"-",9},{"<<",8},{">>",8},{"<",7},{">",7},{"<=",7},{">=",7},{"==",6},{"!=",6},{"&",5},{"^",4},{"|",3},{"&&",2},{"||",1}};
static long ebin(int min, int ev) {
	long a = eprim(ev);
	while (ep && !ebad && ep->k == 'p') {
		int k = -1; for (int i = 0; i < 18; i++) if (is(ep, OP[i].o)) { k = i; break; }
		if (k < 0 || OP[k].p < min) break;
		ep = ep->nx; int ev2 = ev && !(k == 16 && !a) && !(k == 17 && a);
		long b = ebin(OP[k].p + 1, ev2); if (ebad) return 0;
		if ((k == 1 || k == 2) && b == 0) { if (ev) ebad = 1; a = 0; continue; }
		switch (k) { case 0: a *= b; break; case 1: a /= b; break; case 2: a %= b; break; case 3: a += b; break; case 4: a -= b; break;
		case 5: if (ev && (b < 0 || b > 63 || a < 0)) bad(2); a = ev ? a << b : 0; break; case 6: if (ev && (b < 0 || b > 63)) bad(2); a = ev ? a >> b : 0; break;
		case 7: a = a < b; break; case 8: a = a > b; break; case 9: a = a <= b; break; case 10: a = a >= b; break; case 11: a = a == b; break; case 12: a = a != b; break;
		case 13: a &= b; break; case 14: a ^= b; break; case 15: a |= b; break; case 16: a = a && b; break; default: a = a || b; }
	}
	return a;
}
static long econd(int ev) {
	long c = ebin(1, ev); if (ebad || !ep || !is(ep, "?")) return c;
	ep = ep->nx; long a = econd(ev && c); if (ebad || !ep || !is(ep, ":")) { ebad = 1; return 0; }
	ep = ep->nx; long b = econd(ev && !c); return c ? a : b;
}
static long ifexpr(N *l) {
	N h = {0}, *c = &h;
	for (N *t = l; t; t = t->nx) {
		if (is(t, "defined")) {
			int par = t->nx && is(t->nx, "("); N *x = par ? t->nx->nx : t->nx;
			if (!x || x->k != 'i' || (par && !(x->nx && is(x->nx, ")")))) { bad(1); return 0; }
			c = c->nx = num(find(x) != 0); c->sp = 1; t = par ? x->nx : x; continue;
		}
		c = c->nx = cp(t);
	}
	int o = 0; N *e = expand(h.nx, 0, &o); if (err) return 0;
	if (!e) { bad(1); return 0; }
	for (N *t = e; t; t = t->nx) if (is(t, "defined")) { bad(2); return 0; }
	ep = e; ebad = 0; long v = econd(1); if (err) return 0; if (ebad || ep) { bad(1); return 0; }
	return v;
}
// ------------------------------------------------------------ directives
static struct { int taken, seenelse, outer; } cs[32]; static int ncs;
static N oh, *oc = &oh;
static N *pend, *pendc; // text lines waiting for expansion
static void flush(int eof) { if (!pend) return; int open = 0; N *e = expand(pend, 1, &open); if (open && !eof) err = 2; pend = pendc = 0; if (err) return; for (; e; e = e->nx) oc = oc->nx = cp(e); }
static M *newmac(N *name) { M *m = find(name); int idx = -1; for (int i = 0; i < nmac; i++) if (same(mac[i].name, name)) idx = mac[i].idx; if (m) m->live = 0; m = &mac[nmac++]; memset(m, 0, sizeof *m); m->name = cp(name); m->idx = idx >= 0 ? idx : nmac - 1; m->live = 1; return m; }
static int samebody(N *a, N *b) { for (; a && b; a = a->nx, b = b->nx) if (!same(a, b)) return 0; return !a && !b; }
static void define(N *l) {
	if (!l || l->k != 'i') { bad(1); return; }
	if (is(l, "defined")) { bad(2); return; }
	N *name = l; l = l->nx; int fn = 0, np = 0, va = 0; N *par[8];
	if (l && is(l, "(") && !l->sp) {
		fn = 1; l = l->nx;
		if (l && is(l, ")")) l = l->nx;
		else for (;;) {
			if (!l) { bad(1); return; }
			if (is(l, "...")) { N *v = nn(); memcpy(v->t, "__VA_ARGS__", 11); v->len = 11; v->k = 'i'; par[np++] = v; va = 1; l = l->nx; if (!l || !is(l, ")")) { bad(1); return; } l = l->nx; break; }
			if (l->k != 'i' || np >= 7) { bad(1); return; }
			for (int i = 0; i < np; i++) if (same(par[i], l)) { bad(2); return; }
			par[np++] = l; l = l->nx;
			if (l && is(l, "...")) { va = 1; l = l->nx; if (!l || !is(l, ")")) { bad(1); return; } l = l->nx; break; }
			if (!l) { bad(1); return; }
			if (is(l, ")")) { l = l->nx; break; }
			if (!is(l, ",")) { bad(1); return; }
			l = l->nx;
		}
	} else if (l && !l->sp) { bad(2); return; }
	// a definition with a misplaced # or ## is malformed whether or not it is used; toycc may report it at the use
	N *last = 0; for (N *t = l; t; t = t->nx) { if (is(t, "##") && (t == l || !t->nx)) { bad(2); return; } last = t; }
	M *o = find(name);
	if (o) { int s = o->fn == fn && o->np == np && samebody(o->body, l); if (!s) { bad(2); return; } }
	M *m = newmac(name); m->fn = fn; m->np = np; m->va = va; for (int i = 0; i < np; i++) m->par[i] = par[i]; m->body = copylist(l);
	if (fn) for (N *t = m->body; t; t = t->nx) if (is(t, "#") && !(t->nx && param(m, t->nx) >= 0)) { bad(2); return; }
}
static void process(N *l) {
	int act = 1;
	while (l && !err) {
		N *e = l; N *last = l; while (e->nx && !e->nx->bol) e = e->nx; N *next = e->nx; e->nx = 0; last = e;
		if (!is(l, "#")) { if (act) { if (pend) pendc->nx = l; else pend = l; pendc = last; } l = next; continue; }
		N *d = l->nx; flush(0); if (err) return;
		int isif = d && is(d, "if"), ifd = d && is(d, "ifdef"), ifn = d && is(d, "ifndef");
		if (isif || ifd || ifn) {
			if (ncs >= 32) { bad(2); return; }
			cs[ncs].outer = act; cs[ncs].seenelse = 0; cs[ncs].taken = 1;
			if (act) {
				long v; if (isif) v = ifexpr(d->nx); else { if (!d->nx || d->nx->k != 'i') { bad(1); return; } v = (find(d->nx) != 0) == ifd; }
				if (err) return;
				cs[ncs].taken = v != 0; act = v != 0;
			}
			ncs++;
		} else if (d && (is(d, "elif") || is(d, "else"))) {
			int els = is(d, "else");
			if (!ncs) { bad(1); return; }
			if (cs[ncs - 1].seenelse) { bad(cs[ncs - 1].outer ? 1 : 2); return; }
			if (els) cs[ncs - 1].seenelse = 1;
			if (cs[ncs - 1].taken) act = 0;
			else { long v = els ? 1 : ifexpr(d->nx); if (err) return; act = v != 0; cs[ncs - 1].taken = act; }
		} else if (d && is(d, "endif")) { if (!ncs) { bad(1); return; } act = cs[--ncs].outer; }
		else if (act && d) {
			if (is(d, "define")) define(d->nx);
			else if (is(d, "undef")) { if (!d->nx || d->nx->k != 'i') { bad(1); return; } M *m = find(d->nx); if (m) m->live = 0; }
			else if (is(d, "error")) bad(1);
			else if (is(d, "pragma")) ;
			else if (d->k == 'n' || is(d, "line") || is(d, "include") || is(d, "include_next")) bad(2);
			else bad(1);
		}
		l = next;
	}
	if (!err) flush(1);
	if (!err && ncs) bad(1);
}
int h_main(void) {
	__sym_noholes = 1;
	static unsigned char raw[MAXB]; FILE *f = fopen("/s/a.c", "r"); int n = fread(raw, 1, MAXB - 2, f); fclose(f);
	int k = 0; for (int i = 0; i < n; i++) { if (raw[i] == '\\' && i + 1 < n && raw[i + 1] == '\n') { i++; continue; } raw[k++] = raw[i]; } n = k; // line splices
	N *l = lex(raw, n); N ln = {0}; memcpy(ln.t, "__LINE__", 8); ln.len = 8; ln.k = 'i'; newmac(&ln)->blt = 1;
	if (!err) process(l);
	__sym_event("expect", err == 0 ? "ok" : err == 1 ? "error" : "any");
	char *av[] = {"toycc", "-cc1", "-E", "-cc1-input", 0, "-cc1-output", "-", 0, 0}; av[4] = av[7] = "/s/a.c";
	int rc = __sym_toycc(8, av);
	__sym_event("returned", "");
	if (err == 2) return 0;
	__sym_assert(err == 0, "malformed preprocessing input is diagnosed");
	__sym_assert(rc == 0, "exit status 0");
	char *o; long on = __sym_stdout(&o);
	N *g = lex((unsigned char *)o, on), *w = oh.nx;
	__sym_assert(err == 0, "the output lexes");
	for (; w && g; w = w->nx, g = g->nx) __sym_assert(same(w, g), "token sequence after preprocessing");
	__sym_assert(!w, "no token is lost"); __sym_assert(!g, "no extra token");
	return 0;
}
