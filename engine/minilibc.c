// Small libc executed symbolically together with the program under test.
typedef unsigned long size_t; typedef long ssize_t;
#define NULL ((void *)0)
typedef __builtin_va_list va_list;
#define va_start(a, b) __builtin_va_start(a, b)
#define va_end(a) __builtin_va_end(a)
#define va_arg(a, t) __builtin_va_arg(a, t)
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
long __sym_is_sym(unsigned long); long __sym_hole(int, unsigned long); unsigned long __sym_concretize(unsigned long);
void __sym_exit(int); void __sym_abort(const char *); void __sym_event(const char *, const char *);
void __sym_emit(const char *, const char *, size_t); void __sym_outtrunc(const char *); void __sym_outgone(const char *);
int __sym_file(const char *, char **, long *); int __sym_native_fmt(char *, long, const char *, long double);
long __sym_fork(void); void __sym_exec(char **); long __sym_choose(const char *, int); unsigned long __sym_var(const char *, int);

static int errno_v; int *__errno_location(void) { return &errno_v; }
int isdigit(int c) { return (unsigned)(c - '0') <= 9; }
int isupper(int c) { return (unsigned)(c - 'A') <= 25; }
int islower(int c) { return (unsigned)(c - 'a') <= 25; }
int isalpha(int c) { return (unsigned)((c | 32) - 'a') <= 25; }
int isalnum(int c) { return ((unsigned)((c | 32) - 'a') <= 25) | ((unsigned)(c - '0') <= 9); }
int isspace(int c) { return (c == ' ') | ((unsigned)(c - 9) <= 4); }
int isxdigit(int c) { return ((unsigned)((c | 32) - 'a') <= 5) | ((unsigned)(c - '0') <= 9); }
int isprint(int c) { return (unsigned)(c - 32) <= 94; }
int isgraph(int c) { return (unsigned)(c - 33) <= 93; }
int iscntrl(int c) { return ((unsigned)c < 32) | (c == 127); }
int ispunct(int c) { return ((unsigned)(c - 33) <= 93) & !(((unsigned)((c | 32) - 'a') <= 25) | ((unsigned)(c - '0') <= 9)); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int tolower(int c) { return isupper(c) ? c | 32 : c; }
int toupper(int c) { return islower(c) ? c & ~32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { for (; *a && *a == *b; a++, b++); return *(unsigned char *)a - *(unsigned char *)b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n && *a && *a == *b; a++, b++, n--); return n ? *(unsigned char *)a - *(unsigned char *)b : 0; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (; n; a++, b++, n--) if (*a != *b) return *a - *b; return 0; }
int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
int strcasecmp(const char *a, const char *b) { for (; *a && tolower(*a) == tolower(*b); a++, b++); return tolower(*(unsigned char *)a) - tolower(*(unsigned char *)b); }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n && *a && tolower(*(unsigned char *)a) == tolower(*(unsigned char *)b); a++, b++, n--); return n ? tolower(*(unsigned char *)a) - tolower(*(unsigned char *)b) : 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strchrnul(const char *s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char *)s; } }
char *strrchr(const char *s, int c) { char *r = NULL; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return NULL; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char *strdup(const char *s) { size_t n = strlen(s); char *p = malloc(n + 1); memcpy(p, s, n + 1); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
static char *tokp;
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return NULL; s += strspn(s, d); if (!*s) { *sv = NULL; return NULL; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = NULL; return s; }
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tokp); }
static int dig(int c) { if ((unsigned)(c - '0') <= 9) return c - '0'; if ((unsigned)((c | 32) - 'a') <= 25) return (c | 32) - 'a' + 10; return 99; }
// kind: 0 unsigned, 1 signed
// a decimal literal 7777770NN stands for every 64-bit value when the scenario asks for it
long __sym_lits(void); unsigned long __sym_lit(unsigned long);
static unsigned long strtox(const char *s, char **end, int base, int sg) {
  const char *p = s; int neg = 0; unsigned long v = 0; int any = 0, ov = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '+') p++; else if (*p == '-') { neg = 1; p++; }
  // glibc >= 2.38 (__isoc23_*) also accepts 0b prefixes for base 0 and 2
  if ((base == 0 || base == 2) && p[0] == '0' && (p[1] | 32) == 'b' && (p[2] == '0' || p[2] == '1')) { p += 2; base = 2; }
  else if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) {
    unsigned long c = (unsigned char)*p, d; 
    if (base <= 10) { if (!(c - '0' < (unsigned long)base)) break; d = c - '0'; }
    else { if (!isxdigit(c)) break; d = (c & 15) + 9 * (c >> 6); }
    any = 1;
    if (ov) continue;
    if (v > ~0ul / base) { ov = 1; continue; }
    v *= base; if (v > ~0ul - 64 && v > ~0ul - d) { ov = 1; continue; }
    v += d;
  }
  if (end) *end = (char *)(any ? p : s);
  if (base == 10 && (__sym_lits() & 1) && v - 777777000ul < 100) return __sym_lit(v - 777777000ul);
  if (sg) { if (ov || v > 0x7ffffffffffffffful + neg) { errno_v = 34; return neg ? 0x8000000000000000ul : 0x7ffffffffffffffful; } return neg ? -v : v; }
  if (ov) { errno_v = 34; return ~0ul; }
  return neg ? -v : v;
}
unsigned long strtoul(const char *s, char **e, int b) { return strtox(s, e, b, 0); }
unsigned long strtoull(const char *s, char **e, int b) { return strtox(s, e, b, 0); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtox(s, e, b, 0); }
unsigned long __isoc23_strtoull(const char *s, char **e, int b) { return strtox(s, e, b, 0); }
long strtol(const char *s, char **e, int b) { return strtox(s, e, b, 1); }
long strtoll(const char *s, char **e, int b) { return strtox(s, e, b, 1); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtox(s, e, b, 1); }
long __isoc23_strtoll(const char *s, char **e, int b) { return strtox(s, e, b, 1); }
int atoi(const char *s) { return (int)strtox(s, NULL, 10, 1); }
long atol(const char *s) { return strtox(s, NULL, 10, 1); }
// lits&2: the characters strtold consumes are found symbolically (glibc's grammar), the value is abstracted to 1.5
long double __sym_strtold(const char *, char **); double __sym_strtod(const char *, char **); float __sym_strtof(const char *, char **);
static void fscan(const char *s, char **end) {
  const char *p = s; int any = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '+' || *p == '-') p++;
  int hex = 0;
  if (*p == '0' && (p[1] | 32) == 'x' && (isxdigit((unsigned char)p[2]) || (p[2] == '.' && isxdigit((unsigned char)p[3])))) { hex = 1; p += 2; }
#define FD(c) (hex ? isxdigit((unsigned char)(c)) : isdigit((unsigned char)(c)))
  while (FD(*p)) { p++; any = 1; }
  if (*p == '.' && (any || FD(p[1]))) { p++; while (FD(*p)) { p++; any = 1; } }
  if (!any) { if (end) *end = (char *)s; return; }
  if ((*p | 32) == (hex ? 'p' : 'e')) { const char *q = p + 1; if (*q == '+' || *q == '-') q++; if (isdigit((unsigned char)*q)) { while (isdigit((unsigned char)*q)) q++; p = q; } }
  if (end) *end = (char *)p;
}
long double strtold(const char *s, char **e) { if (__sym_lits() & 2) { fscan(s, e); return 1.5L; } return __sym_strtold(s, e); }
double strtod(const char *s, char **e) { if (__sym_lits() & 2) { fscan(s, e); return 1.5; } return __sym_strtod(s, e); }
float strtof(const char *s, char **e) { if (__sym_lits() & 2) { fscan(s, e); return 1.5f; } return __sym_strtof(s, e); }
// ---------------------------------------------------------------- stdio
typedef struct FILE { int mode; /*1 out 2 in 3 memstream*/ char name[256]; char *buf; size_t len, cap, pos; char **mp; size_t *ml; int err; char *nm; } FILE;
static FILE f_in = {2, "-"}, f_out = {1, "<stdout>"}, f_err = {1, "<stderr>"};
FILE *stdin = &f_in, *stdout = &f_out, *stderr = &f_err;
static void fput1(FILE *f, char c) {
  if (f->len + 1 >= f->cap) { f->cap = f->cap * 2 + 64; f->buf = f->buf ? realloc(f->buf, f->cap) : malloc(f->cap); }
  f->buf[f->len++] = c;
}
static void fputn(FILE *f, const char *s, size_t n) {
  if (!n) return;
  if (f->len + n >= f->cap) { f->cap = f->cap * 2 + n + 64; f->buf = f->buf ? realloc(f->buf, f->cap) : malloc(f->cap); }
  memcpy(f->buf + f->len, s, n); f->len += n;
}
static void fsync1(FILE *f) {
  if (f->mode == 1) { const char *n = f->nm ? f->nm : f->name; if (f->len) __sym_emit(n, f->buf, f->len); f->len = 0; }
  else if (f->mode == 3) { fput1(f, 0); f->len--; *f->mp = f->buf; *f->ml = f->len; }
}
static FILE *allf[64]; static int nallf;
FILE *fopen(const char *p, const char *m) {
  if (*m == 'r') { char *b; long n; if (!p || !__sym_file(p, &b, &n)) { errno_v = 2; return NULL; } FILE *f = calloc(1, sizeof *f); f->mode = 2; f->buf = b; f->len = n; return f; }
  // unwritable location: name starts with "/nowrite"
  if (!strncmp(p, "/nowrite", 8)) { errno_v = 13; return NULL; }
  FILE *f = calloc(1, sizeof *f); f->mode = 1; f->nm = strdup(p); __sym_outtrunc(p); __sym_event("fopen-w", p); if (nallf < 64) allf[nallf++] = f; return f;
}
FILE *open_memstream(char **p, size_t *l) { FILE *f = calloc(1, sizeof *f); f->mode = 3; f->mp = p; f->ml = l; fsync1(f); return f; }
int fflush(FILE *f) { if (f) fsync1(f); return 0; }
int fclose(FILE *f) { fsync1(f); return 0; }
int ferror(FILE *f) { return 0; }
int feof(FILE *f) { return f->pos >= f->len; }
static void stdin_load(FILE *f) { if (f == &f_in && !f->buf) { char *b; long n; if (__sym_file("-", &b, &n)) { f->buf = b; f->len = n; } } }
size_t fread(void *d, size_t a, size_t b, FILE *f) { stdin_load(f); size_t n = a * b, r = f->len - f->pos; if (n > r) n = r; if (n) memcpy(d, f->buf + f->pos, n); f->pos += n; return a ? n / a : 0; }
int fgetc(FILE *f) { stdin_load(f); return f->pos < f->len ? (unsigned char)f->buf[f->pos++] : -1; }
int getc(FILE *f) { return fgetc(f); }
char *fgets(char *d, int n, FILE *f) { int i = 0; while (i < n - 1) { int c = fgetc(f); if (c == -1) break; d[i++] = c; if (c == '\n') break; } if (!i) return NULL; d[i] = 0; return d; }
size_t fwrite(const void *d, size_t a, size_t b, FILE *f) { fputn(f, d, a * b); return b; }
int fputc(int c, FILE *f) { fput1(f, c); return c; }
int putc(int c, FILE *f) { fput1(f, c); return c; }
int putchar(int c) { fput1(stdout, c); return c; }
int fputs(const char *s, FILE *f) { fputn(f, s, strlen(s)); return 1; }
int puts(const char *s) { fputs(s, stdout); fput1(stdout, '\n'); return 1; }
int __sym_noholes; // set by a harness: symbolic numbers are printed digit by digit, one path per value
static void hole(FILE *f, char kind, unsigned long v) { // textual marker, resolved by the analysis
  long id = __sym_hole(kind, v); char t[24]; int n = 0; do t[n++] = '0' + id % 10; while (id /= 10);
  fput1(f, 1); fput1(f, kind); while (n) fput1(f, t[--n]); fput1(f, 2);
}
static int vfp(FILE *f, const char *s, va_list ap) {
  size_t n0 = f->len;
  for (; *s; s++) {
    if (*s != '%') { const char *b = s; while (s[1] && s[1] != '%') s++; fputn(f, b, s - b + 1); continue; }
    const char *spec = s++;
    int left = 0, zero = 0, alt = 0, plus = 0, sp = 0; long width = 0, prec = -1; int lng = 0, ld = 0;
    for (;; s++) { if (*s == '-') left = 1; else if (*s == '0') zero = 1; else if (*s == '#') alt = 1; else if (*s == '+') plus = 1; else if (*s == ' ') sp = 1; else break; }
    if (*s == '*') { width = (int)__sym_concretize((long)va_arg(ap, int)); if (width < 0) { left = 1; width = -width; } s++; } else while (isdigit(*s)) width = width * 10 + *s++ - '0';
    if (*s == '.') { s++; prec = 0; if (*s == '*') { prec = (int)__sym_concretize((long)va_arg(ap, int)); s++; } else while (isdigit(*s)) prec = prec * 10 + *s++ - '0'; }
    for (;; s++) { if (*s == 'l' || *s == 'z' || *s == 'j' || *s == 't') lng++; else if (*s == 'h') lng--; else if (*s == 'L') ld = 1; else break; }
    char tmp[80]; int n = 0; const char *o = tmp; size_t ol = 0;
    switch (*s) {
    case '%': fput1(f, '%'); continue;
    case 'c': tmp[0] = va_arg(ap, int); ol = 1; break;
    case 's': { o = va_arg(ap, const char *); if (!o) o = "(null)"; ol = prec >= 0 ? strnlen(o, prec) : strlen(o); break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      unsigned long v; int sg = *s == 'd' || *s == 'i';
      if (*s == 'p') { v = va_arg(ap, unsigned long); alt = 1; } else if (lng > 0) v = va_arg(ap, unsigned long); else { int t = va_arg(ap, int); if (lng == -1) t = sg ? (int)(short)t : (int)(unsigned short)t; if (lng == -2) t = sg ? (int)(signed char)t : (int)(unsigned char)t; v = sg ? (long)t : (unsigned long)(unsigned)t; }
      if (__sym_noholes) v = __sym_concretize(v);
      if (__sym_is_sym(v)) { if (alt && (*s == 'x')) { fputn(f, "0x", 2); } hole(f, sg ? 'd' : *s, v); continue; }
      int base = (*s == 'x' || *s == 'X' || *s == 'p') ? 16 : *s == 'o' ? 8 : 10; int neg = 0; if (sg && (long)v < 0) { neg = 1; v = -v; }
      unsigned long v0 = v; char r[72]; int k = 0; do { int d = v % base; r[k++] = d < 10 ? '0' + d : (*s == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
      if (prec == 0 && v0 == 0) k = 0;
      while (k < prec && k < 70) r[k++] = '0';
      int pre = (neg || plus || sp) ? 1 : 0; if (alt && base == 16 && v0) pre += 2;
      if (zero && !left && prec < 0) while (k + pre < width && k < 70) r[k++] = '0';
      if (neg) tmp[n++] = '-'; else if (plus) tmp[n++] = '+'; else if (sp) tmp[n++] = ' ';
      if (alt && base == 16 && v0) { tmp[n++] = '0'; tmp[n++] = *s == 'X' ? 'X' : 'x'; }
      while (k) tmp[n++] = r[--k];
      ol = n; break; }
    case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a': case 'A': {
      long double x = ld ? va_arg(ap, long double) : (long double)va_arg(ap, double); char fm[40]; int q = 0; fm[q++] = '%'; if (left) fm[q++] = '-'; if (zero) fm[q++] = '0'; if (alt) fm[q++] = '#'; if (plus) fm[q++] = '+';
      if (prec >= 0) { fm[q++] = '.'; if (prec >= 10) fm[q++] = '0' + prec / 10; fm[q++] = '0' + prec % 10; } fm[q++] = 'L'; fm[q++] = *s; fm[q] = 0;
      char *big = malloc(512); ol = __sym_native_fmt(big, 512, fm, x); o = big; break; }
    default: __sym_abort("unsupported printf conversion");
    }
    if (!left) for (size_t i = ol; (long)i < width; i++) fput1(f, ' ');
    fputn(f, o, ol);
    if (left) for (size_t i = ol; (long)i < width; i++) fput1(f, ' ');
  }
  return f->len - n0;
}
int vfprintf(FILE *f, const char *s, va_list ap) { return vfp(f, s, ap); }
int fprintf(FILE *f, const char *s, ...) { va_list ap; va_start(ap, s); int r = vfp(f, s, ap); va_end(ap); return r; }
int printf(const char *s, ...) { va_list ap; va_start(ap, s); int r = vfp(stdout, s, ap); va_end(ap); return r; }
int vprintf(const char *s, va_list ap) { return vfp(stdout, s, ap); }
int vsnprintf(char *d, size_t n, const char *s, va_list ap) { FILE f = {0}; f.mode = 4; int r = vfp(&f, s, ap); size_t k = r; if (n) { if (k > n - 1) k = n - 1; if (k) memcpy(d, f.buf, k); d[k] = 0; } return r; }
int snprintf(char *d, size_t n, const char *s, ...) { va_list ap; va_start(ap, s); int r = vsnprintf(d, n, s, ap); va_end(ap); return r; }
int sprintf(char *d, const char *s, ...) { va_list ap; va_start(ap, s); int r = vsnprintf(d, 1ul << 30, s, ap); va_end(ap); return r; }
int vasprintf(char **p, const char *s, va_list ap) { FILE f = {0}; f.mode = 4; int r = vfp(&f, s, ap); fput1(&f, 0); *p = f.buf; return r; }
int asprintf(char **p, const char *s, ...) { va_list ap; va_start(ap, s); int r = vasprintf(p, s, ap); va_end(ap); return r; }
void perror(const char *s) { fprintf(stderr, "%s: error\n", s); }
char *strerror(int e) { return "error string"; }
// ---------------------------------------------------------------- process, fs
static void (*ats[32])(void); static int nats;
int atexit(void (*f)(void)) { if (nats < 32) ats[nats++] = f; return 0; }
static void flushall(void) { fsync1(stdout); fsync1(stderr); for (int i = 0; i < nallf; i++) fsync1(allf[i]); }
void exit(int s) { while (nats) ats[--nats](); flushall(); __sym_exit(s); }
void _exit(int s) { __sym_exit(s); }
void _Exit(int s) { __sym_exit(s); }
void abort(void) { __sym_abort("abort()"); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { flushall(); __sym_abort(e); }
int __sym_start(int argc, char **argv, int (*m)(int, char **)) { exit(m(argc, argv)); }
int main(int, char **);
int __sym_main(int argc, char **argv) { exit(main(argc, argv)); return 0; }
int __sym_toycc(int argc, char **argv) { return main(argc, argv); }
long __sym_stdout(char **p) { *p = f_out.buf; return f_out.len; }
int unlink(const char *p) { __sym_event("unlink", p); __sym_outgone(p); return 0; }
int close(int fd) { return 0; }
static int tmpn; int mkstemp(char *t) { size_t l = strlen(t); if (l < 6) { errno_v = 22; return -1; } char *x = t + l - 6; for (int i = 0; i < 6; i++) { if (x[i] != 'X') { errno_v = 22; return -1; } x[i] = 'a'; } x[5] = 'a' + tmpn++; __sym_event("mkstemp", t); return 50 + tmpn; }
long fork(void) { return __sym_fork(); }
int execvp(const char *f, char **a) { __sym_exec(a); return -1; }
int execv(const char *f, char **a) { __sym_exec(a); return -1; }
static int waitn;
long wait(int *st) { static const char *nm[] = {"wait0","wait1","wait2","wait3","wait4","wait5","wait6","wait7"}; 
  static int pend; if (pend) { pend = 0; errno_v = 10; return -1; } pend = 1; long k = __sym_choose(nm[waitn++ & 7], 2); if (st) *st = k ? 256 : 0; return 4242; }
long waitpid(long p, int *st, int o) { static const char *nm[] = {"wait0","wait1","wait2","wait3","wait4","wait5","wait6","wait7"}; long k = __sym_choose(nm[waitn++ & 7], 2); if (st) *st = k ? 256 : 0; return 4242; }
struct stat_x { unsigned long d[18]; };
int stat(const char *p, void *st) { if (!__sym_file(p, NULL, NULL)) { errno_v = 2; return -1; } memset(st, 0, 144); ((unsigned *)st)[6] = 0100644; return 0; }
int access(const char *p, int m) { if (!__sym_file(p, NULL, NULL)) { errno_v = 2; return -1; } return 0; }
int glob(const char *p, int fl, void *cb, void *g) { char **v = malloc(16); v[0] = strdup(p); v[1] = NULL; for (char *c = v[0]; *c; c++) if (*c == '*') *c = '9'; ((size_t *)g)[0] = 1; ((char ***)g)[1] = v; return 0; }
void globfree(void *g) {}
long time(long *t) { if (t) *t = 86400 * 365; return 86400 * 365; }
struct tm_x { int sec, min, hour, mday, mon, year, wday, yday, isdst; long g; const char *z; };
static struct tm_x tmv = {3, 2, 1, 17, 6, 122, 0, 197, 0, 0, "UTC"};
void *localtime(const long *t) { return &tmv; }
void *gmtime(const long *t) { return &tmv; }
char *ctime_r(const long *t, char *b) { strcpy(b, "Sun Jul 17 01:02:03 2022\n"); return b; }
char *getenv(const char *n) { return NULL; }
static char dot[] = ".";
char *dirname(char *p) { if (!p || !*p) return dot; size_t i = strlen(p) - 1; for (; p[i] == '/'; i--) if (!i) return "/"; for (; p[i] != '/'; i--) if (!i) return dot; for (; p[i] == '/'; i--) if (!i) return "/"; p[i + 1] = 0; return p; }
char *__xpg_basename(char *p) { if (!p || !*p) return dot; size_t i = strlen(p) - 1; for (; i && p[i] == '/'; i--) p[i] = 0; for (; i && p[i - 1] != '/'; i--); return p + i; }
char *basename(char *p) { char *q = strrchr(p, '/'); return q ? q + 1 : p; }
void qsort(void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) { char *a = b; char *t = malloc(s); for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * s, a + j * s) > 0; j--) { memcpy(t, a + j * s, s); memcpy(a + j * s, a + (j - 1) * s, s); memcpy(a + (j - 1) * s, t, s); } free(t); }
void *bsearch(const void *k, const void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; int c = cmp(k, (char *)b + m * s); if (!c) return (char *)b + m * s; if (c < 0) hi = m; else lo = m + 1; } return NULL; }
